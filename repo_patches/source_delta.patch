From cf075d8fd825d4e1dbd8109fa214c8559ab2b754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 001/122] fix: order dev, pre and post releases as PEP 440 does

---
 pkm/src/pkm/api/versions/version.py | 31 +++++++++++------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 74b6711..62deecb 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -288,28 +288,21 @@ def _less(v1: Version, v2: Version) -> bool:
             continue
         return s < o
 
-    if v1.dev_release != v2.dev_release:
-        if (v1.dev_release is None) ^ (v2.dev_release is None):
-            return v2.dev_release is None
+    inf = float('inf')
 
-        if v1.dev_release != v2.dev_release:
-            return v1.dev_release < v2.dev_release
+    def particles_key(v: StandardVersion):  # order: [dev] [pre] [final] [post], dev release comes before its base
+        pre = v.pre_release
+        if pre is None:
+            is_dev_of_final = v.dev_release is not None and v.post_release is None
+            pre = ('',) if is_dev_of_final else ('~',)
 
-    if v1.pre_release != v2.pre_release:
-        if (v1.pre_release is None) ^ (v2.pre_release is None):
-            return v2.pre_release is None
+        return (pre,
+                -1 if v.post_release is None else v.post_release,
+                inf if v.dev_release is None else v.dev_release)
 
-        for s, o in zip(v1.pre_release, v2.pre_release):
-            if s == o: continue  # noqa
-            return s < o
-
-    if v1.post_release != v2.post_release:
-        if (v1.post_release is None) ^ (v2.post_release is None):
-            return v1.post_release is None
-
-        s, o = v1.post_release, v2.post_release
-        if s != o:
-            return s < o
+    k1, k2 = particles_key(v1), particles_key(v2)
+    if k1 != k2:
+        return k1 < k2
 
     my_local_segments = (v1.local_label or "").split('.')
     other_local_segments = (v2.local_label or "").split('.')
-- 
2.43.0


From 7566f45c584cb956d2dc849661f32641ffdfad7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 002/122] fix: compare numeric segments of local version labels
 by value

---
 pkm/src/pkm/api/versions/version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 62deecb..27c4c57 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -313,7 +313,7 @@ def _less(v1: Version, v2: Version) -> bool:
 
         m_num, o_num = m.isnumeric(), o.isnumeric()
         if m_num and o_num:
-            return int(m_num) < int(o_num)
+            return int(m) < int(o)
         if m_num or o_num:
             return o_num
 
-- 
2.43.0


From 5435cb44a0b9a162f58bc12f9a6e94c3fa8432f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 003/122] fix: read every PEP 440 spelling of a version

---
 pkm/src/pkm/api/versions/version_parser.py | 56 +++++++++++++---------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index 235a9f3..704379e 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -1,6 +1,6 @@
 from dataclasses import replace
 from pathlib import Path
-from typing import List
+from typing import List, Optional
 
 from pkm.api.versions.version import Version, NamedVersion, StandardVersion, UrlVersion
 from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions, VersionMatch
@@ -24,7 +24,7 @@ def parse_specifier(specifier_str: str) -> VersionSpecifier:
 
 
 _PRE_RELEASE_TYPE_NORMALIZER = {
-    'a': 'a', 'b': 'b', 'rc': 'rc', 'c': 'rc', 'alpha': 'a', 'beta': 'b', 'preview': 'rc'
+    'alpha': 'a', 'a': 'a', 'beta': 'b', 'b': 'b', 'rc': 'rc', 'c': 'rc', 'preview': 'rc', 'pre': 'rc'
 }
 
 
@@ -45,38 +45,33 @@ class VersionParser(SimpleParser):
             n = self.read_digits()
 
         release: List[int] = [int(n)]
-        while self.match('.') and self.is_not_empty() and self.peek().isdigit():
+        while self.peek() == '.' and self.peek(2)[1:].isdigit():
+            self.next()
             release.append(int(self.read_digits()))
 
         pre_release = None
-        # pre_release_type = self.peek_prev() != '.' and self.match_any(*_PRE_RELEASE_TYPE_NORMALIZER.keys())
-        pre_release_type = self.match_any(*_PRE_RELEASE_TYPE_NORMALIZER.keys())
+        pre_release_type = self._match_version_label(*_PRE_RELEASE_TYPE_NORMALIZER.keys())
         if pre_release_type:
-            self.match_any('.', '-', '_')
-            pre_release_num = 0 if not self.peek().isdigit() else int(self.read_digits())
-            pre_release = (_PRE_RELEASE_TYPE_NORMALIZER[pre_release_type], pre_release_num)
+            pre_release = (_PRE_RELEASE_TYPE_NORMALIZER[pre_release_type], self._read_version_label_number())
 
         post_release = None
-
-        if (prev := self.peek_prev()).isdigit() or prev in _PRE_RELEASE_TYPE_NORMALIZER:
-            self.match_any('.', '-', '_')
-        if self.match_any('post', 'r', 'rev') or (self.peek_prev() == '-' and self.peek().isdigit()):
-            self.match('-')
-            post_release = 0 if not self.peek().isdigit() else int(self.read_digits())
+        if self._match_version_label('post', 'rev', 'r'):
+            post_release = self._read_version_label_number()
+        elif self.peek() == '-' and self.peek(2)[1:].isdigit():
+            self.next()
+            post_release = int(self.read_digits())
 
         dev_release = None
-        if self.peek_prev().isdigit():
-            self.match_any('.', '-', '_')
-        if self.match('dev'):
-            dev_release = 0 if not self.peek().isdigit() else int(self.read_digits())
+        if self._match_version_label('dev'):
+            dev_release = self._read_version_label_number()
 
         local_label = None
         if self.match('+'):
             local_label = self.until(lambda i, s: s[i] not in ".-_" and not s[i].isalnum())
-            local_label = local_label.translate(local_label.maketrans('-_', '..'))
-
-        if self.peek_prev() == '.':
-            self.position -= 1
+            segments = local_label.translate(local_label.maketrans('-_', '..')).split('.')
+            if not all(segments):
+                self.raise_err('malformed local version label')
+            local_label = '.'.join(str(int(it)) if it.isdigit() else it for it in segments)
 
         self.match_ws()
 
@@ -89,6 +84,23 @@ class VersionParser(SimpleParser):
         return StandardVersion(release=tuple(release), epoch=epoch, pre_release=pre_release, post_release=post_release,
                                dev_release=dev_release, local_label=local_label)
 
+    def _match_version_label(self, *labels: str) -> Optional[str]:
+        position = self.position
+        self.match_any('.', '-', '_')
+        label = self.match_any(*labels)
+        if not label:
+            self.position = position
+        return label
+
+    def _read_version_label_number(self) -> int:
+        position = self.position
+        self.match_any('.', '-', '_')
+        if self.peek().isdigit():
+            return int(self.read_digits())
+
+        self.position = position
+        return 0
+
     # noinspection PyShadowingBuiltins
     def _read_single_specifier(self) -> VersionSpecifier:
         self.match_ws()
-- 
2.43.0


From 392b3c13c437b866f55fae8dcafe251a12e2cf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 004/122] fix: equal versions with and without an explicit zero
 epoch hash alike

---
 pkm/src/pkm/api/versions/version.py        | 2 +-
 pkm/src/pkm/api/versions/version_parser.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 27c4c57..6712ea0 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -134,7 +134,7 @@ class StandardVersion(Version):
 
     def __hash__(self):
         s = self.standartize()
-        return hash((s.release, s.epoch, s.dev_release, s.post_release, s.pre_release, s.local_label))
+        return hash((s.release, s.epoch or 0, s.dev_release, s.post_release, s.pre_release, s.local_label))
 
     def is_pre_or_dev_release(self) -> bool:
         return self.pre_release is not None or self.dev_release is not None
diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index 704379e..ae4e273 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -13,7 +13,10 @@ def parse_version(version_str: str) -> Version:
         if '://' in lowered_vstr:
             return UrlVersion.parse(lowered_vstr)
 
-        return VersionParser(lowered_vstr).read_version()
+        parser = VersionParser(lowered_vstr)
+        version = parser.read_version()
+        if parser.is_empty() and version_str.isascii():
+            return version
     except ValueError:
         ...
     return NamedVersion(version_str)
-- 
2.43.0


From d4de508a7d590ac48b91836cb8fe0e09b3d28d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 005/122] fix: a range such as '>1, <=1' allows nothing instead
 of raising an assertion error

---
 pkm/src/pkm/api/versions/version_specifiers.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 18408b6..8ac1a3f 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -73,9 +73,6 @@ class VersionSpecifier(ABC):
             includes_min: bool = False, includes_max: bool = False) -> VersionSpecifier:
 
         eq = min_ == max_
-        assert not (eq and includes_min != includes_max), \
-            f"{min_}(min) == {max_}(max) but includes_min != includes_max "
-
         if min_ is None and max_ is None:
             return AllowAllVersions
 
-- 
2.43.0


From cfa77ffd808ba7bb66b2d6feed4a8d09e8df99c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 006/122] fix: union of nested or unbounded version ranges
 keeps the larger upper bound

---
 .../pkm/api/versions/version_specifiers.py    | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 8ac1a3f..01d3b5e 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -488,9 +488,9 @@ class StandardVersionRange(VersionSpecifier):
     def inverse(self) -> VersionSpecifier:
         parts = []
         if self.min:
-            parts.append(VersionSpecifier.create_range(None, self.min, False, self.min and not self.includes_min))
+            parts.append(VersionSpecifier.create_range(None, self.min, False, not self.includes_min))
         if self.max:
-            parts.append(VersionSpecifier.create_range(self.max, None, self.max and not self.includes_max, False))
+            parts.append(VersionSpecifier.create_range(self.max, None, not self.includes_max, False))
 
         if len(parts) == 1:
             return parts[0]
@@ -508,7 +508,7 @@ class StandardVersionRange(VersionSpecifier):
                 if self.min != other.min:
                     return self.min < other.min
                 elif self.includes_min != other.includes_min:
-                    return other.includes_min
+                    return self.includes_min
             elif self.min or other.min:
                 return bool(other.min)
 
@@ -558,16 +558,23 @@ class StandardVersionRange(VersionSpecifier):
         if other < self:
             return other._union_with(self)
 
-        imin, imax = self.includes_min, other.includes_max
-        if not other.min or not self.max or other.min < self.max:
-            if self.min == other.min:
-                imin = self.includes_min or other.includes_min
-            if self.max == other.max:
-                imax = self.includes_max or other.includes_max
-        elif (not self.includes_max and not other.includes_min) or other.min != self.max:
-            return VersionsUnion([self, other])
+        if other.min and self.max and not other.min < self.max:
+            if (not self.includes_max and not other.includes_min) or other.min != self.max:
+                return VersionsUnion([self, other])
+
+        imin = self.includes_min
+        if self.min == other.min:
+            imin = self.includes_min or other.includes_min
+
+        if not self.max or not other.max:
+            max_, imax = None, False
+        elif self.max == other.max:
+            max_, imax = self.max, self.includes_max or other.includes_max
+        else:
+            larger = self if other.max < self.max else other
+            max_, imax = larger.max, larger.includes_max
 
-        return VersionSpecifier.create_range(self.min, other.max, imin, imax)
+        return VersionSpecifier.create_range(self.min, max_, imin, imax)
 
     def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion, HetroVersionIntersection, VersionMatch)):
-- 
2.43.0


From abbb5eeb662743f9f1990ec9a173ffe50db504ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 007/122] fix: union of version unions does not consume its
 operand and may result in a single segment

---
 pkm/src/pkm/api/versions/version_specifiers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 01d3b5e..346fc5a 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -204,7 +204,7 @@ class VersionsUnion(VersionSpecifier):
             return other.union_with(self)
 
         new_segments = [*self.segments]
-        other_segments = other.segments if isinstance(other, VersionsUnion) else [other]
+        other_segments = [*other.segments] if isinstance(other, VersionsUnion) else [other]
 
         while other_segments:
             os = other_segments.pop()
@@ -221,7 +221,7 @@ class VersionsUnion(VersionSpecifier):
             else:
                 new_segments.append(os)
 
-        return VersionsUnion(new_segments)
+        return new_segments[0] if len(new_segments) == 1 else VersionsUnion(new_segments)
 
     def intersect_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_AllowAll, _RestrictAll)):
-- 
2.43.0


From 842b86ca0857d5c11143b6c594a8b2668e77d92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 008/122] fix: version unions and exclusions denote the exact
 set of versions their operands imply

---
 .../pkm/api/versions/version_specifiers.py    | 100 +++++++++---------
 1 file changed, 50 insertions(+), 50 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 346fc5a..19d3f94 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -250,39 +250,27 @@ class HetroVersionIntersection(VersionSpecifier):
         return HashBuilder().unordered_seq(self.blacklist).regular(self.standard_spec).build()
 
     def allows_version(self, version: Version) -> bool:
-        if version in self.blacklist:
+        if not all(VersionMatch(it, False).allows_version(version) for it in self.blacklist):
             return False
 
-        return not isinstance(version, StandardVersion) or self.standard_spec.allows_version(version)
+        return self.standard_spec.allows_version(version)
 
     def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion)):
             return other.union_with(self)
 
-        if isinstance(other, HetroVersionIntersection):
-            standard_spec = self.standard_spec.union_with(other.standard_spec)
-            if len(other.blacklist.union(self.blacklist)) != len(self.blacklist):
-                return standard_spec
-
-            return HetroVersionIntersection.create(
-                self.blacklist if len(self.blacklist) < len(other.blacklist) else other.blacklist, standard_spec)
-
-        if isinstance(other, VersionMatch):
-            if isinstance(other.version, StandardVersion) and other.allow:
-                return HetroVersionIntersection.create(self.blacklist, self.standard_spec.union_with(other))
-
-            blacklist = set(self.blacklist)
-            if other.allow:
-                blacklist.remove(other.version)
-            else:
-                blacklist.add(other.version)
-
-            return HetroVersionIntersection.create(blacklist, self.standard_spec)
+        if isinstance(other, VersionMatch) and not other.allow:
+            return other.union_with(self)
 
-        if isinstance(other, StandardVersionRange):
-            return HetroVersionIntersection.create(self.blacklist, self.standard_spec.union_with(other))
+        blacklist = self.blacklist
+        standard_spec = other
+        if isinstance(other, HetroVersionIntersection):
+            blacklist = blacklist.union(other.blacklist)
+            standard_spec = other.standard_spec
 
-        raise UnsupportedOperationException()
+        return HetroVersionIntersection.create(
+            {it for it in blacklist if not self.allows_version(it) and not other.allows_version(it)},
+            self.standard_spec.union_with(standard_spec))
 
     def intersect_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion)):
@@ -293,15 +281,11 @@ class HetroVersionIntersection(VersionSpecifier):
                 self.blacklist.union(other.blacklist), self.standard_spec.intersect_with(other.standard_spec))
 
         if isinstance(other, VersionMatch):
-            if isinstance(other.version, StandardVersion) and other.allow:
-                if self.standard_spec.allows_version(other.version) and other.version not in self.blacklist:
-                    return other
-                return RestrictAllVersions
-
             if other.allow:
-                if other.version in self.blacklist:
-                    return RestrictAllVersions
-                return other
+                result = self.standard_spec.intersect_with(other)
+                for version in self.blacklist:
+                    result = result.intersect_with(VersionMatch(version, False))
+                return result
 
             return HetroVersionIntersection.create({*self.blacklist, other.version}, self.standard_spec)
 
@@ -311,10 +295,10 @@ class HetroVersionIntersection(VersionSpecifier):
         raise UnsupportedOperationException()
 
     def inverse(self) -> VersionSpecifier:
-        union = [*(VersionMatch(it) for it in self.blacklist)]
-        if self.standard_spec is not AllowAllVersions:
-            union.append(self.standard_spec.inverse())
-        return VersionsUnion(union)
+        result = self.standard_spec.inverse()
+        for version in self.blacklist:
+            result = result.union_with(VersionMatch(version))
+        return result
 
     def __str__(self) -> str:
         result = ", ".join(f"!={it}" for it in self.blacklist)
@@ -347,7 +331,15 @@ class HetroVersionIntersection(VersionSpecifier):
 
     @classmethod
     def create(cls, blacklist: Set[Version], standard_spec: VersionSpecifier) -> VersionSpecifier:
-        blacklist = {it for it in blacklist if not isinstance(it, StandardVersion) or standard_spec.allows_version(it)}
+        if isinstance(standard_spec, VersionsUnion):  # drop the exact matches that are blacklisted
+            segments = standard_spec.segments
+            standard_spec = RestrictAllVersions
+            for segment in segments:
+                if not isinstance(segment, VersionMatch) or segment.version not in blacklist:
+                    standard_spec = standard_spec.union_with(segment)
+
+        blacklist = {it for it in blacklist if standard_spec.allows_version(it)}
+        blacklist = {it for it in blacklist if not it.is_local() or it.without_local() not in blacklist}
 
         if standard_spec is RestrictAllVersions:
             return RestrictAllVersions
@@ -413,23 +405,28 @@ class VersionMatch(VersionSpecifier):
         return f'==={v}' if a else f'!=={v}'
 
     def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
-        if isinstance(other, (_RestrictAll, _AllowAll, HetroVersionIntersection, VersionsUnion)):
+        if isinstance(other, (_RestrictAll, _AllowAll)):
+            return other.union_with(self)
+
+        if not self.allow:  # "everything except version" with other - what is left out is what other does not allow
+            left_out = VersionMatch(self.version).difference_from(other)
+            if left_out is RestrictAllVersions or isinstance(left_out, VersionMatch):
+                return left_out.inverse()
+            return VersionsUnion([self, other])
+
+        if isinstance(other, (HetroVersionIntersection, VersionsUnion)):
             return other.union_with(self)
 
         if isinstance(other, VersionMatch):
             if self == other:
                 return self
 
-            if self.version == other.version:
-                if self.allow != other.allow:
-                    return AllowAllVersions
+            if not other.allow:
+                return other.union_with(self)
 
         if isinstance(other, StandardVersionRange):
             if other.allows_version(self.version):
-                return other if self.allow else AllowAllVersions
-
-            if not self.allow:
-                return self
+                return other
 
             if not other.includes_min and self.version == other.min:
                 return StandardVersionRange(other.min, other.max, True, other.includes_max)
@@ -455,12 +452,15 @@ class VersionMatch(VersionSpecifier):
                     return self if self.version.is_local() else other
                 return RestrictAllVersions
             if self.allow or other.allow:
-                if my_ver == ot_ver:
-                    return RestrictAllVersions
-                return self if self.allow else other
-            return HetroVersionIntersection({self.version, other.version}, AllowAllVersions)
+                allowed, denied = (self, other) if self.allow else (other, self)
+                if my_ver != ot_ver:
+                    return allowed
+                if denied.version.is_local() and not allowed.version.is_local():
+                    return HetroVersionIntersection({denied.version}, allowed)
+                return RestrictAllVersions
+            return HetroVersionIntersection.create({self.version, other.version}, AllowAllVersions)
 
-        if isinstance(other, StandardVersionRange) and isinstance(self.version, StandardVersion):
+        if isinstance(other, StandardVersionRange):
             if other.allows_version(self.version):
                 if self.allow:
                     return self
-- 
2.43.0


From 78acf5e077733ab393658de6928b514daef11dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 009/122] fix: exclusions at the upper bound of a range make it
 exclusive, so that emptiness is detected

---
 pkm/src/pkm/api/versions/version_specifiers.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 19d3f94..fa4bf21 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -331,12 +331,14 @@ class HetroVersionIntersection(VersionSpecifier):
 
     @classmethod
     def create(cls, blacklist: Set[Version], standard_spec: VersionSpecifier) -> VersionSpecifier:
-        if isinstance(standard_spec, VersionsUnion):  # drop the exact matches that are blacklisted
-            segments = standard_spec.segments
-            standard_spec = RestrictAllVersions
-            for segment in segments:
-                if not isinstance(segment, VersionMatch) or segment.version not in blacklist:
-                    standard_spec = standard_spec.union_with(segment)
+        # reduce the parts of the spec that are directly named by the blacklist
+        segments = standard_spec.segments if isinstance(standard_spec, VersionsUnion) else [standard_spec]
+        standard_spec = RestrictAllVersions
+        for segment in segments:
+            if isinstance(segment, StandardVersionRange) and segment.includes_max and segment.max in blacklist:
+                segment = VersionSpecifier.create_range(segment.min, segment.max, segment.includes_min, False)
+            if not isinstance(segment, VersionMatch) or not segment.allow or segment.version not in blacklist:
+                standard_spec = standard_spec.union_with(segment)
 
         blacklist = {it for it in blacklist if standard_spec.allows_version(it)}
         blacklist = {it for it in blacklist if not it.is_local() or it.without_local() not in blacklist}
@@ -464,7 +466,7 @@ class VersionMatch(VersionSpecifier):
             if other.allows_version(self.version):
                 if self.allow:
                     return self
-                return HetroVersionIntersection({self.version}, other)
+                return HetroVersionIntersection.create({self.version}, other)
 
         return RestrictAllVersions if self.allow else other
 
-- 
2.43.0


From fa7f50a5433c9d77571cc3134c635e7c89766b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 010/122] fix: keep the case of urls and arbitrary version
 names

---
 pkm/src/pkm/api/versions/version.py        |  2 +-
 pkm/src/pkm/api/versions/version_parser.py | 26 ++++++++++++----------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 6712ea0..756de4a 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -74,7 +74,7 @@ class UrlVersion(Version):
 
     @classmethod
     def parse(cls, txt: str) -> UrlVersion:
-        match = VERSION_URL_RX.match(txt.lower())
+        match = VERSION_URL_RX.match(txt)
         parsed_url = Url.parse(match.group('url'))
         return cls(match.group('url'), match.group('repo'), parsed_url.scheme)
 
diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index ae4e273..6e5755b 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -9,11 +9,10 @@ from pkm.utils.parsers import SimpleParser
 
 def parse_version(version_str: str) -> Version:
     try:
-        lowered_vstr = version_str.lower()
-        if '://' in lowered_vstr:
-            return UrlVersion.parse(lowered_vstr)
+        if '://' in version_str:
+            return UrlVersion.parse(version_str)
 
-        parser = VersionParser(lowered_vstr)
+        parser = VersionParser(version_str)
         version = parser.read_version()
         if parser.is_empty() and version_str.isascii():
             return version
@@ -23,7 +22,7 @@ def parse_version(version_str: str) -> Version:
 
 
 def parse_specifier(specifier_str: str) -> VersionSpecifier:
-    return VersionParser(specifier_str.lower()).read_specifier()
+    return VersionParser(specifier_str).read_specifier()
 
 
 _PRE_RELEASE_TYPE_NORMALIZER = {
@@ -39,7 +38,7 @@ class VersionParser(SimpleParser):
         wrapping_brakets = self.match("(", "")
         wrapping_quotes = self.match("'", "") or self.match("\"", "")
 
-        self.match('v')
+        self.match_any('v', 'V')
 
         epoch = None
         n = self.read_digits()
@@ -70,7 +69,7 @@ class VersionParser(SimpleParser):
 
         local_label = None
         if self.match('+'):
-            local_label = self.until(lambda i, s: s[i] not in ".-_" and not s[i].isalnum())
+            local_label = self.until(lambda i, s: s[i] not in ".-_" and not s[i].isalnum()).lower()
             segments = local_label.translate(local_label.maketrans('-_', '..')).split('.')
             if not all(segments):
                 self.raise_err('malformed local version label')
@@ -90,10 +89,13 @@ class VersionParser(SimpleParser):
     def _match_version_label(self, *labels: str) -> Optional[str]:
         position = self.position
         self.match_any('.', '-', '_')
-        label = self.match_any(*labels)
-        if not label:
-            self.position = position
-        return label
+        for label in labels:
+            if self.peek(len(label)).lower() == label:
+                self.next(len(label))
+                return label
+
+        self.position = position
+        return None
 
     def _read_version_label_number(self) -> int:
         position = self.position
@@ -122,7 +124,7 @@ class VersionParser(SimpleParser):
         if self.match('==='):
             self.match_ws()
             version_str = self.until(lambda i, t: t[i].isspace() or t[i] == ',')
-            return VersionMatch(NamedVersion(version_str))
+            return VersionMatch(parse_version(version_str))
 
         exclusion_inclusion = self.match_any('==', '!=')
         if exclusion_inclusion:
-- 
2.43.0


From 4f7980150a124bd622b922d2dd450d3a04c5e153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 011/122] fix: the text of a version specifier denotes the same
 specifier when parsed

---
 pkm/src/pkm/api/versions/version_parser.py     |  6 +++++-
 pkm/src/pkm/api/versions/version_specifiers.py | 13 +------------
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index 6e5755b..eda8e51 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -3,7 +3,8 @@ from pathlib import Path
 from typing import List, Optional
 
 from pkm.api.versions.version import Version, NamedVersion, StandardVersion, UrlVersion
-from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions, VersionMatch
+from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions, RestrictAllVersions, \
+    VersionMatch
 from pkm.utils.parsers import SimpleParser
 
 
@@ -113,6 +114,9 @@ class VersionParser(SimpleParser):
         if self.match('*'):
             return AllowAllVersions
 
+        if self.match(str(RestrictAllVersions)):
+            return RestrictAllVersions
+
         if self.match('@'):
             self.match_ws()
             url = self.until(lambda i, s: s[i].isspace())
diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index fa4bf21..1088680 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -301,7 +301,7 @@ class HetroVersionIntersection(VersionSpecifier):
         return result
 
     def __str__(self) -> str:
-        result = ", ".join(f"!={it}" for it in self.blacklist)
+        result = ", ".join(str(VersionMatch(it, False)) for it in sorted(self.blacklist))
         if self.standard_spec is not AllowAllVersions:
             result += f", {self.standard_spec}"
         return result
@@ -528,17 +528,6 @@ class StandardVersionRange(VersionSpecifier):
                and self.includes_max == other.includes_max and self.min == other.min and self.max == other.max
 
     def __str__(self):
-
-        # first attempt to recognize the ~= pattern:
-
-        # noinspection PyUnboundLocalVariable
-        if self.includes_min and (not self.includes_max) \
-                and self.min and self.max \
-                and len(smr := self.min.release) > 1 \
-                and self.max.release == (*smr[:-2], smr[-2] + 1, 0):
-
-            return f"~={self.min}"
-
         res = ''
         if self.min is not None:
             res += '>'
-- 
2.43.0


From 77c8c305886c54b81ce8f98e708a23953424a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 012/122] fix: accept package names and extras that start with
 a digit

---
 pkm/src/pkm/api/dependencies/dependency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/dependencies/dependency.py b/pkm/src/pkm/api/dependencies/dependency.py
index da92f0b..255b129 100644
--- a/pkm/src/pkm/api/dependencies/dependency.py
+++ b/pkm/src/pkm/api/dependencies/dependency.py
@@ -91,7 +91,7 @@ class PEP508DependencyParser(SimpleParser):
         return self.subparser(VersionParser).read_specifier()
 
     def _read_identifier(self) -> str:
-        if (p := self.peek()).isalpha() or p == '_':
+        if (p := self.peek()).isalnum() or p == '_':
             return self.until(lambda i, t: not t[i].isalnum() and t[i] not in '_-.')
         self.raise_err('expecting identifier')
 
-- 
2.43.0


From d7e3a017fdce2daa6a209adc5a0cdbc1b8c0dfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 013/122] fix: reject requirements with trailing garbage
 instead of ignoring it

---
 pkm/src/pkm/api/dependencies/dependency.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkm/src/pkm/api/dependencies/dependency.py b/pkm/src/pkm/api/dependencies/dependency.py
index 255b129..1ed8378 100644
--- a/pkm/src/pkm/api/dependencies/dependency.py
+++ b/pkm/src/pkm/api/dependencies/dependency.py
@@ -118,5 +118,9 @@ class PEP508DependencyParser(SimpleParser):
         env_marker: Optional[EnvironmentMarker] = None
         if self.match(";", '') and self.is_not_empty():
             env_marker = self.read_emarker()
+            self.match_ws()
+
+        if self.is_not_empty():
+            self.raise_err('unexpected text after the requirement')
 
         return Dependency(package_name, version_spec, extras=extras, env_marker=env_marker)
-- 
2.43.0


From 5bddbce6f282b0ccbc6368ee01c8f55304a7a6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 014/122] fix: separate the url of a requirement from its
 marker when printing

---
 pkm/src/pkm/api/dependencies/dependency.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/dependencies/dependency.py b/pkm/src/pkm/api/dependencies/dependency.py
index 1ed8378..af07e9a 100644
--- a/pkm/src/pkm/api/dependencies/dependency.py
+++ b/pkm/src/pkm/api/dependencies/dependency.py
@@ -58,7 +58,9 @@ class Dependency:
 
         version_str = "" if self.version_spec is AllowAllVersions else f" {str(self.version_spec)}"
 
-        marker_str = f";{self.env_marker}" if self.env_marker else ''
+        marker_str = ''
+        if self.env_marker:  # a url is terminated by whitespace
+            marker_str = f"{' ' if self.required_url() else ''};{self.env_marker}"
 
         return f"{self.package_name}{extras_str}{version_str}{marker_str}"
 
-- 
2.43.0


From 9d59dabd2ebda18d7cb2732b04f2226e71b94333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 015/122] fix: environment marker strings may contain any
 character except for their quote

---
 pkm/src/pkm/api/dependencies/env_markers.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index 8c98a18..a924a05 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -32,10 +32,6 @@ class EnvironmentMarker:
         return PEP508EnvMarkerParser(text).read_marker()
 
 
-_MARKER_STR_CHARS = set(
-    ' \t0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIZKLMNOPQRSTUVWXYZ().{}-_*#:;,/?[]!`~@$%^&=+|<>')
-
-
 class PEP508EnvMarkerParser(SimpleParser):
 
     def _read_identifier(self) -> str:
@@ -45,9 +41,8 @@ class PEP508EnvMarkerParser(SimpleParser):
 
     def _read_str(self) -> str:
         quote = self.match_any("'", "\"")
-        oquote = "'" if quote == '"' else '"'
 
-        content = self.until(lambda i, t: t[i] != oquote and t[i] not in _MARKER_STR_CHARS)
+        content = self.until(lambda i, t: t[i] == quote)
         self.match_or_err(quote, f'expecting closing quote: ({quote})')
         return content
 
-- 
2.43.0


From 816fe04aec83e9c7a3ded1be6eacbda676d2ea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 016/122] fix: recognize the === operator in environment
 markers

---
 pkm/src/pkm/api/dependencies/env_markers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index a924a05..4483df6 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -59,7 +59,7 @@ class PEP508EnvMarkerParser(SimpleParser):
             return lambda e, x: e.markers[v_ident]
 
     def _read_marker_op(self) -> _MARKER_OP_T:
-        version_or_string_op = self.match_any("<=", "<", ">=", ">", "!=", "==", "===", "~=")
+        version_or_string_op = self.match_any("<=", "<", ">=", ">", "!=", "===", "==", "~=")
         if version_or_string_op:
             def _op(a: Sequence[str], b: Sequence[str]) -> bool:
 
-- 
2.43.0


From 1eb9f3cc88a811287f60de929b72385fde734121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 017/122] fix: environment markers with the same expression are
 equal

---
 pkm/src/pkm/api/dependencies/env_markers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index 4483df6..9f64d93 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -21,6 +21,12 @@ class EnvironmentMarker:
         self._expr = expr
         self._exec = exec
 
+    def __eq__(self, other) -> bool:
+        return isinstance(other, EnvironmentMarker) and self._expr == other._expr
+
+    def __hash__(self) -> int:
+        return hash(self._expr)
+
     def evaluate_on(self, env: "Environment", extras: _EXTRAS_T) -> bool:
         return self._exec(env, extras)
 
@@ -148,4 +154,4 @@ class PEP508EnvMarkerParser(SimpleParser):
     def read_marker(self) -> EnvironmentMarker:
         p = self.position
         exe = self._read_marker_compound_expr()
-        return EnvironmentMarker(self.text[p:self.position], exe)
+        return EnvironmentMarker(self.text[p:self.position].strip(), exe)
-- 
2.43.0


From a9fbb19132e02d49a2253da702fec7fe8ed1b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 018/122] fix: print requirements that exclude a release prefix
 as valid requirements

---
 pkm/src/pkm/api/dependencies/dependency.py    |  2 +-
 .../pkm/api/versions/version_specifiers.py    | 41 ++++++++++++++++++-
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/dependency.py b/pkm/src/pkm/api/dependencies/dependency.py
index af07e9a..9890fb8 100644
--- a/pkm/src/pkm/api/dependencies/dependency.py
+++ b/pkm/src/pkm/api/dependencies/dependency.py
@@ -56,7 +56,7 @@ class Dependency:
     def __str__(self):
         extras_str = f"[{','.join(self.extras)}]" if self.extras else ''
 
-        version_str = "" if self.version_spec is AllowAllVersions else f" {str(self.version_spec)}"
+        version_str = "" if self.version_spec is AllowAllVersions else f" {self.version_spec.as_requirement()}"
 
         marker_str = ''
         if self.env_marker:  # a url is terminated by whitespace
diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 1088680..c762085 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 from abc import abstractmethod, ABC
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from typing import List, Optional, Set
 
 from pkm.api.versions.version import Version, StandardVersion, UrlVersion
@@ -41,6 +41,12 @@ class VersionSpecifier(ABC):
     def difference_from(self, other: VersionSpecifier) -> VersionSpecifier:
         return self.intersect_with(other.inverse())
 
+    def as_requirement(self) -> str:
+        """
+        :return: the text of this specifier, as it can be written in a requirement (see pep508)
+        """
+        return str(self)
+
     @abstractmethod
     def __str__(self) -> str:
         ...
@@ -174,6 +180,33 @@ class VersionsUnion(VersionSpecifier):
     def allows_pre_or_dev_releases(self) -> bool:
         return any(it.allows_pre_or_dev_releases() for it in self.segments)
 
+    def as_requirement(self) -> str:
+        if not all(isinstance(it, StandardVersionRange) or isinstance(it, VersionMatch) and it.allow
+                   and isinstance(it.version, StandardVersion) for it in self.segments):
+            return str(self)  # such union cannot be written in a requirement
+
+        bounds = [(it.version, it.version, True, True) if isinstance(it, VersionMatch)
+                  else (it.min, it.max, it.includes_min, it.includes_max) for it in self.segments]
+        exclusions: List[str] = []
+        for (_, gap_start, _, includes_start), (gap_end, _, includes_end, _) in zip(bounds, bounds[1:]):
+            if includes_start or not includes_end:
+                return str(self)
+
+            while gap_start != gap_end:  # write the gap as exclusion of release prefixes
+                for prefix_len in range(1, max(len(gap_start.release), len(gap_end.release)) + 1):
+                    prefix = (gap_start.release + (0,) * prefix_len)[:prefix_len]
+                    prefix_end = replace(gap_start, release=prefix[:-1] + (prefix[-1] + 1,))
+                    if replace(gap_start, release=prefix) == gap_start and prefix_end <= gap_end:
+                        exclusions.append(f"!={replace(gap_start, release=prefix)}.*")
+                        gap_start = prefix_end
+                        break
+                else:
+                    return str(self)
+
+        (min_, _, includes_min, _), (_, max_, _, includes_max) = bounds[0], bounds[-1]
+        hull = VersionSpecifier.create_range(min_, max_, includes_min, includes_max)
+        return ", ".join(exclusions if hull is AllowAllVersions else [str(hull), *exclusions])
+
     def inverse(self) -> VersionSpecifier:
         result = AllowAllVersions
         for segment in self.segments:
@@ -300,6 +333,12 @@ class HetroVersionIntersection(VersionSpecifier):
             result = result.union_with(VersionMatch(version))
         return result
 
+    def as_requirement(self) -> str:
+        result = ", ".join(str(VersionMatch(it, False)) for it in sorted(self.blacklist))
+        if self.standard_spec is not AllowAllVersions:
+            result += f", {self.standard_spec.as_requirement()}"
+        return result
+
     def __str__(self) -> str:
         result = ", ".join(str(VersionMatch(it, False)) for it in sorted(self.blacklist))
         if self.standard_spec is not AllowAllVersions:
-- 
2.43.0


From e0723c23240dea7ba5effad7caee8be4a766307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 019/122] fix: parse urls that contain user information

---
 pkm/src/pkm/utils/http/http_client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 4e4140b..f3d750a 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -85,10 +85,11 @@ class Url:
     def parse(cls, url: str) -> "Url":
         parts = urlsplit(url)
         scheme = parts.scheme
-        if ':' in parts.netloc:
-            host, port = parts.netloc.split(':')
+        netloc = parts.netloc.rpartition('@')[2]  # without the user info
+        if ':' in netloc:
+            host, port = netloc.split(':')
         else:
-            host = parts.netloc
+            host = netloc
             port = '80' if scheme == 'http' else '443'
 
         return Url(scheme, host, int(port), parts.path, parts.query, parts.fragment)
-- 
2.43.0


From feb833c301e9f5ab938030168248ae2467b57699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 020/122] fix: reject names that end with punctuation instead
 of reading them as other names

---
 pkm/src/pkm/api/dependencies/dependency.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/dependencies/dependency.py b/pkm/src/pkm/api/dependencies/dependency.py
index 9890fb8..7beb7f3 100644
--- a/pkm/src/pkm/api/dependencies/dependency.py
+++ b/pkm/src/pkm/api/dependencies/dependency.py
@@ -94,7 +94,9 @@ class PEP508DependencyParser(SimpleParser):
 
     def _read_identifier(self) -> str:
         if (p := self.peek()).isalnum() or p == '_':
-            return self.until(lambda i, t: not t[i].isalnum() and t[i] not in '_-.')
+            identifier = self.until(lambda i, t: not t[i].isalnum() and t[i] not in '_-.')
+            if identifier[-1].isalnum():
+                return identifier
         self.raise_err('expecting identifier')
 
     def read_emarker(self) -> EnvironmentMarker:
-- 
2.43.0


From 086d92aadec23492117a957281263870c064a74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 021/122] fix: reject specifiers without a version or url, and
 stop arbitrary versions at the end of the clause

---
 pkm/src/pkm/api/versions/version_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index eda8e51..ab33bc9 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -120,6 +120,8 @@ class VersionParser(SimpleParser):
         if self.match('@'):
             self.match_ws()
             url = self.until(lambda i, s: s[i].isspace())
+            if not url:
+                self.raise_err('expecting url or path')
             if "://" not in url:
                 url = Path(url).resolve().as_uri()
 
@@ -127,7 +129,9 @@ class VersionParser(SimpleParser):
 
         if self.match('==='):
             self.match_ws()
-            version_str = self.until(lambda i, t: t[i].isspace() or t[i] == ',')
+            version_str = self.until(lambda i, t: t[i].isspace() or t[i] in ',;)')
+            if not version_str:
+                self.raise_err('expecting version')
             return VersionMatch(parse_version(version_str))
 
         exclusion_inclusion = self.match_any('==', '!=')
-- 
2.43.0


From 1d7dd6c62298ad91faa7e99a0206f129abf2e66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 022/122] fix: report truncated environment markers as a
 parsing error

---
 pkm/src/pkm/api/dependencies/env_markers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index 9f64d93..1f1bcde 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -53,7 +53,7 @@ class PEP508EnvMarkerParser(SimpleParser):
         return content
 
     def _read_marker_var(self) -> _MARKER_GET_T:
-        if self.peek() in '"\'':
+        if self.peek() and self.peek() in '"\'':
             v_str = self._read_str()
             return lambda e, x: v_str
         else:
-- 
2.43.0


From dac7af6b3f1a08c85d4206166faf2fff187f88e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 023/122] fix: reject specifiers with an unclosed paren

---
 pkm/src/pkm/api/versions/version_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index ab33bc9..f53f11a 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -190,8 +190,13 @@ class VersionParser(SimpleParser):
             specifier = specifier.intersect_with(self._read_single_specifier())
             self.match_ws()
             if not self.match(',') and self.is_not_empty():
-                if not paren or self.match(')'):
+                if not paren:
                     break
+                if self.match(')'):
+                    return specifier
                 self.raise_err("expecting comma (',')")
 
+        if paren:
+            self.raise_err("expecting closing paren (')')")
+
         return specifier
-- 
2.43.0


From 169c1789da20726e6f4a6694775a3a13b1f596e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 024/122] fix: merge exclusions into the segments of a version
 union

---
 pkm/src/pkm/api/versions/version_specifiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index c762085..327eb9d 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -251,6 +251,10 @@ class VersionsUnion(VersionSpecifier):
                     other_segments.append(us)
                     del new_segments[i]
                     break
+                if isinstance(os, HetroVersionIntersection) or isinstance(es, HetroVersionIntersection):
+                    other_segments.extend(us.segments)
+                    del new_segments[i]
+                    break
             else:
                 new_segments.append(os)
 
-- 
2.43.0


From 3c27fd26619c720475392993ebdeba03fcc7275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 025/122] fix: environment markers compare values as versions
 only if both are versions, and extras by their normalized name

---
 pkm/src/pkm/api/dependencies/env_markers.py | 50 +++++++++++++++------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index 1f1bcde..9dd28b7 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -1,6 +1,8 @@
+import operator
+import re
 from typing import Callable, Optional, List, Sequence, TYPE_CHECKING
 
-from pkm.api.versions.version import Version
+from pkm.api.versions.version import StandardVersion, Version
 from pkm.api.versions.version_specifiers import VersionSpecifier
 from pkm.utils.parsers import SimpleParser
 
@@ -14,6 +16,29 @@ if TYPE_CHECKING:
     from pkm.api.environments.environment import Environment
 
 
+_STRING_OPS = {
+    '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge,
+    '==': operator.eq, '===': operator.eq, '!=': operator.ne,
+}
+
+
+def _is_requested_extra(requested: _EXTRAS_T, extra: str) -> bool:
+    extra = _normalize_extra(extra)
+    return any(_normalize_extra(it) == extra for it in requested)
+
+
+def _normalize_extra(extra: str) -> str:
+    return re.sub(r"[-_.]+", "-", extra).lower()
+
+
+def _is_version_comparison(op: str, a: str, b: str) -> bool:
+    # values are compared as versions only if both of them are (else they are compared as strings)
+    if op in ('==', '!=') and b.endswith('.*'):
+        b = b[:-2]
+
+    return all(isinstance(Version.parse(it), StandardVersion) for it in (a, b))
+
+
 class EnvironmentMarker:
 
     # noinspection PyShadowingBuiltins
@@ -69,20 +94,19 @@ class PEP508EnvMarkerParser(SimpleParser):
         if version_or_string_op:
             def _op(a: Sequence[str], b: Sequence[str]) -> bool:
 
-                if version_or_string_op in ('==', '==='):
+                if version_or_string_op in ('==', '===', '!='):
                     if isinstance(a, _EXTRAS_COLLECTION_T):
-                        return b in a
+                        return _is_requested_extra(a, b) != (version_or_string_op == '!=')
                     elif isinstance(b, _EXTRAS_COLLECTION_T):
-                        return a in b
-
-                try:
-                    a_ver = Version.parse(str(a))
-                    spec = VersionSpecifier.parse(f"{version_or_string_op} {b}")
-                    return spec.allows_version(a_ver)
-                except ValueError:
-                    if version_or_string_op == '~=':
-                        raise
-                    return eval(f"{repr(str(a))} {version_or_string_op} {repr(str(b))}")
+                        return _is_requested_extra(b, a) != (version_or_string_op == '!=')
+
+                if version_or_string_op != '===' and _is_version_comparison(version_or_string_op, a, b):
+                    return VersionSpecifier.parse(f"{version_or_string_op} {b}").allows_version(Version.parse(a))
+
+                if version_or_string_op == '~=':
+                    raise ValueError(f"~= can only compare versions, got: {a!r} ~= {b!r}")
+
+                return _STRING_OPS[version_or_string_op](str(a), str(b))
 
             return _op
 
-- 
2.43.0


From 99cb15141db5c6392fc473fe7662e9b86114fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:13 +0000
Subject: [PATCH 026/122] fix: a specifier contains another if nothing is left
 of the other without it

---
 pkm/src/pkm/api/versions/version_specifiers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 327eb9d..d8865d7 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -14,7 +14,8 @@ from pkm.utils.seqs import seq
 class VersionSpecifier(ABC):
 
     def allows_all(self, other: VersionSpecifier) -> bool:
-        return self.intersect_with(other) == other
+        # the same set of versions may have several representations
+        return self.intersect_with(other) == other or not other.allows_any(self.inverse())
 
     def allows_any(self, other: VersionSpecifier) -> bool:
         return self.intersect_with(other) is not RestrictAllVersions
-- 
2.43.0


From 8e00b12f7a2bf39bdf4911c782578ef4f6c1b345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:13 +0000
Subject: [PATCH 027/122] fix: the dependency solver tells 'not selected' from
 'selected with another version', honours all requirements of a package on
 another, and terminates

---
 pkm/src/pkm/resolution/pubgrub.py | 122 ++++++++++++++++--------------
 1 file changed, 64 insertions(+), 58 deletions(-)

diff --git a/pkm/src/pkm/resolution/pubgrub.py b/pkm/src/pkm/resolution/pubgrub.py
index d877a77..2735a05 100644
--- a/pkm/src/pkm/resolution/pubgrub.py
+++ b/pkm/src/pkm/resolution/pubgrub.py
@@ -1,13 +1,14 @@
 from __future__ import annotations
 
+import re
 import warnings
 from abc import ABC, abstractmethod
 from collections import defaultdict, Counter
 from dataclasses import dataclass, replace
 from itertools import chain
-from typing import List, Dict, Iterable, Tuple, Optional, cast, DefaultDict, Union, Any, TypeVar, Protocol, Generic, Set
+from typing import List, Dict, Iterable, Tuple, Optional, cast, DefaultDict, Union, Any, TypeVar, Protocol, Generic
 
-from pkm.api.versions.version import Version, StandardVersion
+from pkm.api.versions.version import Version, StandardVersion, NamedVersion
 from pkm.api.versions.version_specifiers import VersionSpecifier, VersionMatch, AllowAllVersions, \
     RestrictAllVersions
 from pkm.resolution.resolution_monitor import DependencyResolutionIterationEvent, \
@@ -28,6 +29,12 @@ class PKG(Protocol):
 
 PKG_T = TypeVar('PKG_T', bound=PKG)
 
+# artificial version which denotes that a package is not part of the solution, the constraint of a term that requires
+# the package to be part of the solution does not allow this version, while the negation of such term does.
+_UNSELECTED = NamedVersion('<unselected>')
+_SELECTED = VersionMatch(_UNSELECTED, False)
+_LOWEST_VERSION = cast(StandardVersion, Version.parse('0.dev0'))
+
 
 class UnsolvableProblemException(Exception):
     def __init__(self, incompatibility: "Incompatibility"):
@@ -39,6 +46,15 @@ class MalformedPackageException(Exception):
     ...
 
 
+def _constraint_text(constraint: VersionSpecifier) -> str:
+    # the artificial versions are of no interest for the user
+    text = str(constraint)
+    for artificial in (str(_SELECTED), str(VersionMatch(_UNSELECTED)), f">={_LOWEST_VERSION}"):
+        text = re.sub(re.escape(artificial) + r"([,;] |$)", '', text)
+
+    return text or '*'
+
+
 @dataclass(frozen=True)
 class Term:
     package: PKG
@@ -77,7 +93,7 @@ class Term:
         return cls(package, constraint)
 
     def __repr__(self):
-        return f"[{self.package} {self.constraint}]"
+        return f"[{self.package} {_constraint_text(self.constraint)}]"
 
     @classmethod
     def create(cls, package: PKG, constraint: str) -> "Term":
@@ -127,13 +143,6 @@ class PartialSolution:
     def _decision_level(self) -> int:
         return max(0, len(self._decisions) - 1)
 
-    def requiering_decision(self, package: PKG):
-        decision_level = self._required_packages[package]
-        result = next((acc for acc in self._decisions.values() if acc.decision_level == decision_level), None)
-        assert result, f"requiring decision could not be found for package {package} " \
-                       f"- no decider for level {decision_level}"
-        return result
-
     def backtrack(self, decision_level: int):
         # print(f"backtrack to decision_level: {decision_level}")
 
@@ -166,9 +175,6 @@ class PartialSolution:
             if package not in required_packages:
                 required_packages[package] = self._decision_level
 
-    def requires(self, package: PKG) -> bool:
-        return package in self._required_packages
-
     def make_assignment(self, assignment_value: Term, cause: Optional["Incompatibility"] = None):
         package_assignments = self.assignments_by_package[assignment_value.package]
 
@@ -229,6 +235,9 @@ class IncompatibilitySatisfaction:
             solution: "PartialSolution", term: Term, next_satisfier: Optional[Assignment] = None
     ) -> Optional[Assignment]:
 
+        if next_satisfier and term.constraint.allows_all(next_satisfier.term.constraint):
+            return None  # needs no other assignment
+
         if package_assignments := solution.assignments_by_package[term.package]:
             if term.constraint.allows_all(package_assignments[-1].accumulated):
                 for assignment in package_assignments:
@@ -259,9 +268,6 @@ class IncompatibilitySatisfaction:
         satisfier = satisfiers.pop(satisfier_index)
 
         for term in incompatibility.terms:
-            if solution.requires(term.package):
-                satisfiers.append(solution.requiering_decision(term.package))
-
             if term.package == satisfier.term.package:
                 if prev_satisfier := cls.find_satisfier(solution, term, satisfier):
                     satisfiers.append(prev_satisfier)
@@ -338,7 +344,7 @@ class Incompatibility:
         if len(terms) == 1:
             if terms[0].constraint is AllowAllVersions:
                 return f"{terms[0].package} cannot be resolved"
-            return f"{terms[0].package} must be {terms[0].constraint.inverse()}"
+            return f"{terms[0].package} must be {_constraint_text(terms[0].constraint.inverse())}"
 
         return f"{terms}"
 
@@ -421,11 +427,14 @@ class Incompatibility:
         for term in terms:
             grouped_terms[term.package].append(term)
 
-        normalized_terms = [Term.join(package, terms)
-                            for package, terms in grouped_terms.items()]
+        return cls(cls._normalize(Term.join(package, terms) for package, terms in grouped_terms.items()),
+                   internal_cause, external_cause)
 
-        sorted_terms = sorted(normalized_terms, key=lambda x: str(x.package))
-        return cls(tuple(sorted_terms), internal_cause, external_cause)
+    @staticmethod
+    def _normalize(terms: Iterable[Term]) -> Tuple[Term, ...]:
+        # terms that allow everything are always satisfied
+        return tuple(sorted((term for term in terms if term.constraint is not AllowAllVersions),
+                            key=lambda x: str(x.package)))
 
     def update_inavailability(self, new_constraint: VersionSpecifier):
         assert len(self.terms) == 1, 'attempting to update terms for non inavailability incompatability'
@@ -435,24 +444,18 @@ class Incompatibility:
 
 class DependencyIncompatibility(Incompatibility):
     def __init__(self, dependant: Term, dependency: Term):
-        super().__init__(
-            tuple(sorted([dependency.negate(), dependant], key=lambda x: str(x.package))), None,
-            f"{dependant} depends on {dependency}")
+        super().__init__(self._terms_of(dependant, dependency), None, f"{dependant} depends on {dependency}")
 
         self.dependant = dependant
         self.dependency = dependency
         self.added = False
 
-    def check_satisfaction(self, solution: "PartialSolution") -> IncompatibilitySatisfaction:
-        if dependant_assignments := solution.assignments_by_package[self.dependant.package]:
-            dependant_assignment = dependant_assignments[-1]
-            acc = dependant_assignment.accumulated
-
-            if acc.allows_any(self.dependant.constraint) or \
-                    (acc is not RestrictAllVersions and self.dependant.constraint.allows_all(acc)):
-                return super().check_satisfaction(solution)
+    @classmethod
+    def _terms_of(cls, dependant: Term, dependency: Term) -> Tuple[Term, ...]:
+        if dependant.package == dependency.package:  # the dependant itself must satisfy the dependency
+            return dependant.intersect(dependency.negate()),
 
-        return IncompatibilitySatisfaction.create_unsatisfied(self)
+        return cls._normalize((dependency.negate(), dependant))
 
     def update_dependant(self, new_dependant: Term):
         package = str(new_dependant.package)
@@ -460,7 +463,7 @@ class DependencyIncompatibility(Incompatibility):
             "attempting to update dependency incompatibility with a term that does not belongs to it"
 
         self.dependant = new_dependant
-        self.terms = tuple(sorted([self.dependency.negate(), new_dependant], key=lambda x: str(x.package)))
+        self.terms = self._terms_of(new_dependant, self.dependency)
         self.external_cause = f"{new_dependant} depends on {self.dependency}"
 
 
@@ -477,15 +480,21 @@ class _PackageVersion:
         return cast(VersionMatch, self.term.constraint).version
 
     def fetch_dependencies_info(self, problem: Problem):
-        if not self.dependencies:
-            version_dependencies = problem.get_dependencies(self.term.package, self.version)
-            self.dependencies = {
-                d.package: PackageDependency(d)
-                for d in version_dependencies}
+        if self.dependencies is None:
+            requirements: Dict[PKG, Term] = {}
+            for d in problem.get_dependencies(self.term.package, self.version):
+                previous = requirements.get(d.package) or Term(d.package, _SELECTED)
+                requirements[d.package] = previous.intersect(d)
+
+            self.dependencies = {package: PackageDependency(d) for package, d in requirements.items()}
 
     def compute_incompatibilities(self) -> List[Incompatibility]:
         result: List[Incompatibility] = []
         for dependency in self.dependencies.values():
+            if dependency.incompatibility:
+                result.append(dependency.incompatibility)
+                continue
+
             last_requiring = self
 
             while last_requiring.next:
@@ -660,25 +669,17 @@ class Solver(Generic[PKG_T]):
                 self._solution.assign(term.negate(), incompatibility)
                 return term.package
 
-            prior_cause_terms: Set[Term] = {
+            prior_cause_terms: List[Term] = [
                 term for term in chain(incompatibility.terms, satisfier.cause.terms)
-                if term.package != satisfier.term.package}
+                if term.package != satisfier.term.package]
 
             assert satisfier.cause != incompatibility  # this massup the error reporting...
-            if not satisfier.term.satisfies(term.constraint) or not prior_cause_terms:
-                prior_cause_terms.add(
-                    Term(satisfier.term.package,
-                         # satisfier.term.constraint.difference_from(term.constraint).inverse()))
-                         satisfier.accumulated.difference_from(term.constraint).inverse()))
+            prior_cause_terms.append(  # no effect if the satisfier satisfies the term by itself
+                Term(satisfier.term.package, satisfier.term.constraint.difference_from(term.constraint).inverse()))
 
             prev_incompatibility = incompatibility
             incompatibility = Incompatibility.create(
-                list(prior_cause_terms), internal_cause=(satisfier.cause, incompatibility))
-
-            if len(prior_cause_terms) == 0:
-                self._solution.backtrack(0)
-                self._solution.assign(Term(term.package, RestrictAllVersions), cause=incompatibility)
-                return term.package
+                prior_cause_terms, internal_cause=(satisfier.cause, incompatibility))
 
             # print(f"root cause: {incompatibility}")
 
@@ -690,7 +691,7 @@ class Solver(Generic[PKG_T]):
 
     def package_versions(self, package: PKG) -> List[_PackageVersion]:
         versions = self._package_versions.get(package)
-        if not versions:
+        if versions is None:
             versions = self._package_versions[package] = [
                 _PackageVersion(Term(package, VersionMatch(ver)))
                 for ver in self._problem.get_versions(package)]
@@ -701,7 +702,8 @@ class Solver(Generic[PKG_T]):
                 sorted_versions[i].next = sorted_versions[i + 1]
 
             if len(sorted_versions) == 1:
-                sorted_versions[0].effective_constraint_range = AllowAllVersions
+                sorted_versions[0].effective_constraint_range = VersionSpecifier.create_range(
+                    min_=_LOWEST_VERSION, includes_min=True)
             elif sorted_versions:
                 for i in range(1, len(versions) - 1):
                     sorted_versions[i].effective_constraint_range = VersionSpecifier.create_range(
@@ -709,7 +711,8 @@ class Solver(Generic[PKG_T]):
                         max_=cast(StandardVersion, sorted_versions[i].version), includes_max=True)
 
                 sorted_versions[0].effective_constraint_range = VersionSpecifier.create_range(
-                    max_=cast(StandardVersion, sorted_versions[0].version), includes_max=True)
+                    min_=_LOWEST_VERSION, max_=cast(StandardVersion, sorted_versions[0].version),
+                    includes_min=True, includes_max=True)
                 sorted_versions[-1].effective_constraint_range = VersionSpecifier.create_range(
                     min_=cast(StandardVersion, sorted_versions[-2].version))
 
@@ -724,7 +727,10 @@ class Solver(Generic[PKG_T]):
 
         minor_adjustment_dlevel = -1
         for conflict in conflicts:
-            dependency: Term = find_first(conflict.terms, lambda it: it.package != package)
+            dependency: Optional[Term] = find_first(conflict.terms, lambda it: it.package != package)
+            if dependency is None:
+                return False
+
             dependency_assignments = self._solution.assignments_by_package[dependency.package]
             dependency_requirement = dependency.constraint.inverse()
             if len(dependency_assignments) > 1 and dependency_assignments[-1].is_decision():
@@ -788,7 +794,7 @@ class Solver(Generic[PKG_T]):
                     # print(f"could not find version that match {acc_assignment}")
                     ic = Incompatibility.create(
                         [Term(package, acc_assignment)],
-                        external_cause=f'Compatible version for [{package} {acc_assignment}] not found')
+                        external_cause=f'Compatible version for {Term(package, acc_assignment)} not found')
                     self._package_availability_incompatibilities[package] = ic
                     self._add_incompatibility(ic)
                 return package
@@ -814,7 +820,7 @@ class Solver(Generic[PKG_T]):
         conflicts = list(filter(lambda it: it.check_satisfaction(self._solution).is_full(), incompatibilities))
         assignments[package].pop()
 
-        if conflicts and self._attempt_minor_adjustments(package, conflicts):
+        if conflicts and isinstance(version.version, StandardVersion) and self._attempt_minor_adjustments(package, conflicts):
             conflicts = []
             # rebuilding assignmenr: decision level might have changed due to the minor adjustments
             assignment = self._solution.make_assignment(Term(package, VersionMatch(version.version)), None)
-- 
2.43.0


From 5e50209b6b35b6bcf9018edf506255d56af5dcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 028/122] fix: packages are resolved by their normalized name,
 whatever the spelling used by requirements, overrides and repositories

---
 pkm/src/pkm/api/packages/package.py           |  2 +-
 pkm/src/pkm/resolution/dependency_resolver.py | 41 ++++++++++++-------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index 7e4c57f..03c6a08 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -69,7 +69,7 @@ class PackageDescriptor:
 
     @staticmethod
     def package_name_key(package_name: str) -> str:
-        return PackageDescriptor.normalize_src_package_name(package_name).lower()
+        return re.sub("_+", '_', PackageDescriptor.normalize_src_package_name(package_name)).lower()
 
     @staticmethod
     def normalize_src_package_name(package_name: str) -> str:
diff --git a/pkm/src/pkm/resolution/dependency_resolver.py b/pkm/src/pkm/resolution/dependency_resolver.py
index 02e58b8..14df1ea 100644
--- a/pkm/src/pkm/resolution/dependency_resolver.py
+++ b/pkm/src/pkm/resolution/dependency_resolver.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 from dataclasses import dataclass, replace
-from typing import List, Dict, Optional, TYPE_CHECKING, cast
+from typing import List, Dict, Optional, Tuple, Union, TYPE_CHECKING, cast
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.packages.package import PackageDescriptor, Package
@@ -43,7 +43,7 @@ def resolve_dependencies(root: Dependency, target: "PackageInstallationTarget",
         if pkg.extras:
             continue
 
-        result.append(problem.opened_packages[PackageDescriptor(pkg.name, version)])
+        result.append(problem.opened_packages[_package_key(pkg, version)])
 
     return result
 
@@ -55,12 +55,14 @@ class _PkmPackageInstallationProblem(Problem):
         self._target = target
         self._repo = repo
         self._root = root
-        self._dependency_overrides = dependency_overrides or {}
+        self._dependency_overrides = {
+            PackageDescriptor.package_name_key(name): override
+            for name, override in (dependency_overrides or {}).items()}
 
         from pkm.api.pkm import pkm
         self._threads = pkm.threads
 
-        self.opened_packages: Dict[PackageDescriptor, Package] = {}
+        self.opened_packages: Dict[Tuple[str, Version], Package] = {}
         self._prefetched_packages: Dict[_Pkg, Promise[List[Package]]] = {}
 
     def _prefetch(self, package: _Pkg) -> Promise[List[Package]]:
@@ -68,21 +70,21 @@ class _PkmPackageInstallationProblem(Problem):
                           lambda: Promise.execute(self._threads, self._repo.list, package.name, self._target.env))
 
     def get_dependencies(self, package: _Pkg, version: Version) -> List[Term]:
-        descriptor = PackageDescriptor(package.name, version)
+        package_key = _package_key(package, version)
 
         try:
-            if isinstance(version, UrlVersion) and descriptor not in self.opened_packages:
-                self.opened_packages[descriptor] = single_or_raise(
+            if isinstance(version, UrlVersion) and package_key not in self.opened_packages:
+                self.opened_packages[package_key] = single_or_raise(
                     self._repo.match(f"{package} @ {version}", self._target.env))
 
-            dependencies = self.opened_packages[descriptor].dependencies(self._target, package.extras)
+            dependencies = self.opened_packages[package_key].dependencies(self._target, package.extras)
 
             for d in dependencies:
                 if not d.required_url():
                     self._prefetch(_Pkg.of(d))
 
         except (ValueError, IOError, BuildError) as e:
-            raise MalformedPackageException(str(descriptor)) from e
+            raise MalformedPackageException(f"{package.name} {version}") from e
 
         result: List[Term] = []
 
@@ -91,7 +93,7 @@ class _PkmPackageInstallationProblem(Problem):
 
         for d in dependencies:
             if d.is_applicable_for(self._target.env, package.extras):
-                if o := self._dependency_overrides.get(d.package_name):
+                if o := self._dependency_overrides.get(d.package_name_key):
                     result.append(Term(_Pkg.of(o), o.version_spec))
                 else:
                     result.append(Term(_Pkg.of(d), d.version_spec))
@@ -105,7 +107,7 @@ class _PkmPackageInstallationProblem(Problem):
         packages = list({p.version: p for p in all_packages if p.is_compatible_with(self._target.env)}.values())
 
         for package in packages:
-            self.opened_packages[replace(package.descriptor, name=package.descriptor.name.lower())] = package
+            self.opened_packages[_package_key(package, package.version)] = package
 
         return cast(List[StandardVersion], [p.version for p in packages if isinstance(p.version, StandardVersion)])
 
@@ -113,11 +115,19 @@ class _PkmPackageInstallationProblem(Problem):
         return bool(self._repo.match(Dependency(package.name, VersionMatch(version), package.extras), self._target.env))
 
 
-@dataclass(frozen=True, eq=True)
+def _package_key(package: Union[Package, _Pkg], version: Version) -> Tuple[str, Version]:
+    return package.name_key, version
+
+
+@dataclass(frozen=True, eq=False)
 class _Pkg:
     name: str
     extras: Optional[List[str]]
 
+    @property
+    def name_key(self) -> str:
+        return PackageDescriptor.package_name_key(self.name)
+
     def __str__(self):
         result = self.name
         if self.extras:
@@ -130,8 +140,11 @@ class _Pkg:
     def __lt__(self, other):
         return str(self) < str(other)
 
+    def __eq__(self, other):
+        return isinstance(other, _Pkg) and self.name_key == other.name_key and self.extras == other.extras
+
     def __hash__(self):
-        hb = HashBuilder().regular(self.name)
+        hb = HashBuilder().regular(self.name_key)
         if self.extras:
             hb.ordered_seq(self.extras)
 
@@ -139,4 +152,4 @@ class _Pkg:
 
     @classmethod
     def of(cls, d: Dependency) -> _Pkg:
-        return _Pkg(d.package_name.lower(), d.extras)
+        return _Pkg(d.package_name, sorted(set(d.extras)) if d.extras else None)
-- 
2.43.0


From a3931de2abd5fe78435cfdb6ddb7fca8cda12434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 029/122] fix: a failed fetch leaves the url fetchable: its
 in-progress entry is always released

---
 pkm/src/pkm/utils/http/http_client.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index f3d750a..15691ac 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -437,11 +437,6 @@ class HttpClient:
                                     raise
                                 else:
                                     raise HttpException(str(e), response) from e
-                            finally:
-                                # print(f"thread: {threading.current_thread().ident} attempting to release task")
-                                with self._fetch_lock:
-                                    del self._fetch_inprogress[url]
-                                # print(f"thread: {threading.current_thread().ident} succss to release task")
 
                         # print(f"[END] GET {url} resulted with cache files: {cache_files}")
                         return cache_files
@@ -454,12 +449,20 @@ class HttpClient:
                 return promise.result()
 
             try:
-                deffered.complete(_fetch())
-            except Exception as e:
+                result = _fetch()
+            except BaseException as e:
+                self._release_inprogress(url)
                 deffered.fail(e)
+            else:
+                self._release_inprogress(url)
+                deffered.complete(result)
 
             return promise.result()
 
+    def _release_inprogress(self, url: str):
+        with self._fetch_lock:
+            del self._fetch_inprogress[url]
+
     def clear_resources(self):
         shutil.rmtree(self.workspace)
         self.workspace.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 42148c3acd163dda248cbc8063a5c231d88bfd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 030/122] fix: a download that ends before its declared length
 is an error, not a shorter resource

---
 pkm/src/pkm/utils/http/http_client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 15691ac..4e0508f 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -252,6 +252,9 @@ class FetchedResource:
             with open(self.data, 'wb') as df:
                 shutil.copyfileobj(response, df)
 
+            if response.length:
+                raise HttpException(f"response ended {response.length} bytes before its declared end", response)
+
             rheaders = response.headers
             last_modified = rheaders.get('last-modified', rheaders.get('date'))
 
-- 
2.43.0


From 4c278e744a1caf2bdbcf001c21a1ab37f408beb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 031/122] fix: connections with unread or failed responses are
 not reused for other requests

---
 pkm/src/pkm/utils/http/http_client.py | 58 +++++++++++++++++----------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 4e0508f..62abfc9 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -109,6 +109,9 @@ class _ConnectionProxy(Closeable):
     def __del__(self):
         self.close()
 
+    def disconnect(self):
+        self._conn.close()
+
     def close(self):
         if self._conn is not None:
             # noinspection PyProtectedMember
@@ -126,7 +129,7 @@ class _Connections(Closeable):
         self._cached_amount = cached_amount
         self._closed = False
 
-    def acquire(self) -> HTTPConnection:
+    def acquire(self) -> _ConnectionProxy:
         result: Optional[HTTPConnection] = None
         with self._lock:
             if self._connections:
@@ -137,7 +140,7 @@ class _Connections(Closeable):
             # global _next_connection_number
             # result.number = _next_connection_number
             # _next_connection_number += 1
-        return cast(HTTPConnection, _ConnectionProxy(result, self))
+        return _ConnectionProxy(result, self)
 
     def _release(self, conn: HTTPConnection):
         with self._lock:
@@ -164,7 +167,7 @@ class _ConnectionPool(Closeable):
         self._lock = Lock()
         self._closed = False
 
-    def connection_for(self, url: Url) -> HTTPConnection:
+    def connection_for(self, url: Url) -> _ConnectionProxy:
         connection_key = url.connection_part()
         with self._lock:
             if self._closed:
@@ -326,7 +329,7 @@ class HttpClient:
             max_redirects: int = -1
     ) -> ContextManager[HTTPResponse]:
 
-        conn: HTTPConnection
+        conn: _ConnectionProxy
         num_redirects_performed = 0
         num_connection_retries = 0
 
@@ -337,26 +340,37 @@ class HttpClient:
                 try:
                     # print(f"[CONN] using connection {conn.number} to connect to {str(url)}")  # noqa
                     conn.request(mtd, url.resource_part(), headers=headers, body=payload)
-                    with conn.getresponse() as response:
-                        if response.status in (301, 302, 303, 307, 308):
-                            num_redirects_performed += 1
-                            num_connection_retries = 0
-                            if not (new_location := response.headers.get("Location")):
-                                raise HttpException(
-                                    "server responded with redirect but without supplying a new location")
-                            if new_location.startswith("/"):
-                                url = replace(url, path=new_location)
-                            else:
-                                url = Url.parse(new_location)
-                            response.read()
-                        else:
-                            if response.headers.get('Content-Encoding') == 'gzip':
-                                yield cast(HTTPResponse, _GzipResponseWrapper(response))
-                            else:
-                                yield response
-                            return
+                    response = conn.getresponse()
                 except ConnectionError:
+                    conn.disconnect()
                     num_connection_retries += 1
+                    continue
+                except BaseException:
+                    conn.disconnect()
+                    raise
+
+                try:
+                    if response.status in (301, 302, 303, 307, 308):
+                        num_redirects_performed += 1
+                        num_connection_retries = 0
+                        if not (new_location := response.headers.get("Location")):
+                            raise HttpException(
+                                "server responded with redirect but without supplying a new location")
+                        if new_location.startswith("/"):
+                            url = replace(url, path=new_location)
+                        else:
+                            url = Url.parse(new_location)
+                        response.read()
+                    else:
+                        if response.headers.get('Content-Encoding') == 'gzip':
+                            yield cast(HTTPResponse, _GzipResponseWrapper(response))
+                        else:
+                            yield response
+                        return
+                finally:
+                    if not response.isclosed() and response.length != 0:
+                        conn.disconnect()  # the rest of this response must not be read as the next one
+                    response.close()
 
         error = "max redirects reached" if num_redirects_performed > self._max_redirects else "connection failed"
         raise HttpException(error)
-- 
2.43.0


From 69e2f819f1dee6ece21e78b0bf2ce64ab609358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 032/122] fix: redirect locations are resolved against the
 requested url

---
 pkm/src/pkm/utils/http/http_client.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 62abfc9..cf9952a 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -5,7 +5,7 @@ import shutil
 import socket
 from collections import deque
 from contextlib import contextmanager
-from dataclasses import dataclass, replace
+from dataclasses import dataclass
 from datetime import datetime
 from datetime import timezone
 from gzip import GzipFile
@@ -14,7 +14,7 @@ from pathlib import Path
 from socket import AddressFamily
 from threading import Lock
 from typing import Deque, Dict, Type, Optional, cast, Any, ContextManager, IO, Union, Iterable
-from urllib.parse import urlsplit
+from urllib.parse import urljoin, urlsplit
 
 from pkm.config.configclass import ConfigFile, config, config_field
 from pkm.config.configfiles import TomlConfigIO
@@ -356,10 +356,7 @@ class HttpClient:
                         if not (new_location := response.headers.get("Location")):
                             raise HttpException(
                                 "server responded with redirect but without supplying a new location")
-                        if new_location.startswith("/"):
-                            url = replace(url, path=new_location)
-                        else:
-                            url = Url.parse(new_location)
+                        url = Url.parse(urljoin(str(url), new_location))
                         response.read()
                     else:
                         if response.headers.get('Content-Encoding') == 'gzip':
@@ -372,7 +369,7 @@ class HttpClient:
                         conn.disconnect()  # the rest of this response must not be read as the next one
                     response.close()
 
-        error = "max redirects reached" if num_redirects_performed > self._max_redirects else "connection failed"
+        error = "max redirects reached" if num_redirects_performed > max_redirects else "connection failed"
         raise HttpException(error)
 
     @contextmanager
-- 
2.43.0


From 220b05078571265357fd471437ef1034561d0a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 033/122] fix: url fragments are not sent to the server, and an
 empty path is requested as /

---
 pkm/src/pkm/utils/http/http_client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index cf9952a..895e561 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -65,8 +65,7 @@ class Url:
 
     def resource_part(self) -> str:
         query_str = "" if not self.query_string else f"?{self.query_string}"
-        fragment_str = "" if not self.fragment else f"#{self.fragment}"
-        return f"{self.path}{query_str}{fragment_str}"
+        return f"{self.path or '/'}{query_str}"
 
     def __str__(self):
         default_port = (self.scheme == 'https' and self.port == 443) or (self.scheme == 'http' and self.port == 80)
-- 
2.43.0


From 987795813effa15126b4d1d36f20e1c7013f10b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 034/122] fix: urls with parent references or without a file
 name are cached inside the http workspace

---
 pkm/src/pkm/utils/http/http_client.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 895e561..6806433 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -308,15 +308,12 @@ class HttpClient:
         self._max_connection_retries = max_connection_retries
 
     def _resource_files_of(self, url: Url) -> FetchedResource:
-        url_hash = hashlib.md5(str(url).encode('ascii')).hexdigest()
-        url_path = Path(url.path.lstrip('/'))
+        url_hash = hashlib.md5(str(url).encode('utf-8')).hexdigest()
+        # the hash tells urls apart, parent references in their path must not lead out of the workspace
+        path_parts = [part for part in url.path.split('/') if part not in ('', '.', '..')] or ['index']
 
-        if url_path.parent:
-            cache_dir = self.workspace / url.host / url_path.parent / url_hash
-        else:
-            cache_dir = self.workspace / url.host / url_hash
-
-        data_file = cache_dir / url_path.name
+        cache_dir = self.workspace.joinpath(url.host, *path_parts[:-1], url_hash)
+        data_file = cache_dir / path_parts[-1]
         fetch_file = data_file.with_suffix(".fetch.toml")
 
         return FetchedResource(fetch_file, data_file, self.workspace)
-- 
2.43.0


From 6479ec65a796cba8eb43d81f31ca0772dc63aacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 035/122] fix: urls with ipv6 hosts can be parsed and printed

---
 pkm/src/pkm/utils/http/http_client.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 6806433..f052975 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -61,7 +61,10 @@ class Url:
     fragment: str
 
     def connection_part(self) -> str:
-        return f"{self.scheme}://{self.host}:{self.port}"
+        return f"{self.scheme}://{self._host_part()}:{self.port}"
+
+    def _host_part(self) -> str:
+        return f"[{self.host}]" if ':' in self.host else self.host
 
     def resource_part(self) -> str:
         query_str = "" if not self.query_string else f"?{self.query_string}"
@@ -72,7 +75,7 @@ class Url:
         port_str = "" if default_port else f":{self.port}"
         query_str = "" if not self.query_string else f"?{self.query_string}"
         fragment_str = "" if not self.fragment else f"#{self.fragment}"
-        return f"{self.scheme}://{self.host}{port_str}{self.path}{query_str}{fragment_str}"
+        return f"{self.scheme}://{self._host_part()}{port_str}{self.path}{query_str}{fragment_str}"
 
     @property
     def connection_type(self) -> Type[HTTPConnection]:
@@ -84,14 +87,10 @@ class Url:
     def parse(cls, url: str) -> "Url":
         parts = urlsplit(url)
         scheme = parts.scheme
-        netloc = parts.netloc.rpartition('@')[2]  # without the user info
-        if ':' in netloc:
-            host, port = netloc.split(':')
-        else:
-            host = netloc
-            port = '80' if scheme == 'http' else '443'
-
-        return Url(scheme, host, int(port), parts.path, parts.query, parts.fragment)
+        default_port = 80 if scheme == 'http' else 443
+        port = default_port if parts.port is None else parts.port
+
+        return Url(scheme, parts.hostname or '', port, parts.path, parts.query, parts.fragment)
 
 
 class _ConnectionProxy(Closeable):
-- 
2.43.0


From d6bcbc129908e954d9c5679c1d415310b60ca064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 036/122] fix: simple indexes are read as pep503 and pep592
 define: normalized names, links relative to the page, yanked and malformed
 files skipped, listings refreshed

---
 pkm/src/pkm/repositories/simple_repository.py | 55 +++++++++++--------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index e704b85..6f388b2 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -1,6 +1,8 @@
+import re
 from html.parser import HTMLParser
 from pathlib import Path
 from typing import List, Union, Tuple, Dict, Optional, Callable
+from urllib.parse import urljoin
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.wheel_distribution import InstallationException
@@ -26,28 +28,28 @@ class SimpleRepository(AbstractRepository):
     def __init__(self, name: str, url: str):
         super().__init__(name)
         self._url = url
-        self._base_url = Url.parse(url).connection_part()
-        self._packages: Dict[str, Dict[str, Package]] = {}  # name -> version -> package
+        self._packages: Dict[str, Dict[Version, Package]] = {}  # normalized name -> version -> package
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         # monitor.on_dependency_match(dependency)
-        if not (version_to_package := self._packages.get(dependency.package_name)):
-            data = pkm.httpclient.fetch_resource(f"{self._url}/{dependency.package_name}").data
-            extractor = _HtmlArtifactsExtractor(self._base_url)
+        normalized_name = re.sub(r"[-_.]+", "-", dependency.package_name).lower()  # as defined in pep503
+        if not (version_to_package := self._packages.get(normalized_name)):
+            page_url = f"{self._url}/{normalized_name}/"
+            data = pkm.httpclient.fetch_resource(
+                page_url, CacheDirective.ask_for_update(), resource_name=f"matching packages for {dependency}").data
+            extractor = _HtmlArtifactsExtractor(page_url)
             extractor.feed(data.read_text())
+            extractor.close()
 
             all_artifacts = extractor.artifacts
-            grouped_by_version: Dict[str, List[PackageArtifact]] = groupby(
-                all_artifacts, lambda a: _extract_version(a.file_name))
+            grouped_by_version: Dict[Version, List[PackageArtifact]] = groupby(
+                all_artifacts, lambda a: Version.parse(_extract_version(a.file_name)))
 
             version_to_package = {
-                version_str: _SimplePackage(
-                    PackageDescriptor(dependency.package_name, Version.parse(version_str)),
-                    version_artifacts)
-
-                for version_str, version_artifacts in grouped_by_version.items()
+                version: _SimplePackage(PackageDescriptor(dependency.package_name, version), version_artifacts)
+                for version, version_artifacts in grouped_by_version.items()
             }
-            self._packages[dependency.package_name] = version_to_package
+            self._packages[normalized_name] = version_to_package
 
         packages = [p for p in version_to_package.values() if dependency.version_spec.allows_version(p.version)]
         return self._sorted_by_version(packages)
@@ -56,6 +58,11 @@ class SimpleRepository(AbstractRepository):
 _DISTRIBUTION_EXTENSIONS = (".whl", ".tar.gz", ".zip")
 
 
+def _is_distribution_name(filename: str) -> bool:
+    return bool(endswith_any(filename, _DISTRIBUTION_EXTENSIONS)) \
+        and filename.count("-") >= (4 if filename.endswith(".whl") else 1)
+
+
 def _extract_version(filename: str) -> str:
     result = without_suffix(filename, suffix := endswith_any(filename, _DISTRIBUTION_EXTENSIONS))
     if suffix == '.whl':
@@ -66,11 +73,11 @@ def _extract_version(filename: str) -> str:
 
 class _HtmlArtifactsExtractor(HTMLParser):
 
-    def __init__(self, base_url: str, *, convert_charrefs: bool = ...) -> None:
+    def __init__(self, page_url: str, *, convert_charrefs: bool = ...) -> None:
         super().__init__(convert_charrefs=convert_charrefs)
         self._text_handler: Optional[Callable[[str], None]] = None
         self.artifacts: List[PackageArtifact] = []
-        self._base_url = base_url
+        self._page_url = page_url
 
     def handle_data(self, data: str) -> None:
         if self._text_handler:
@@ -82,21 +89,21 @@ class _HtmlArtifactsExtractor(HTMLParser):
 
     def handle_starttag(self, tag: str, attrs: List[Tuple[str, Union[str, None]]]) -> None:
         self._text_handler = \
-            lambda txt: self.handle_element(tag, {kv[0]: kv[1] for kv in attrs if kv[1] is not None}, txt)
+            lambda txt: self.handle_element(tag, {kv[0]: kv[1] or '' for kv in attrs}, txt)
 
     def handle_element(self, tag: str, attrs: Dict[str, str], text: str):
         self._text_handler = None
-        if tag == 'a' and 'href' in attrs:
+        text = text.strip()
+        if tag == 'a' and 'href' in attrs and 'data-yanked' not in attrs and _is_distribution_name(text):
             requires_python = None
             if requires_python_str := attrs.get('data-requires-python'):
-                requires_python = VersionSpecifier.parse(requires_python_str)
-
-            url = attrs.get('href')
-            if not url.startswith('http'):
-                url = f"{self._base_url}/{url.lstrip('/')}"
+                try:
+                    requires_python = VersionSpecifier.parse(requires_python_str)
+                except ValueError:
+                    return  # cannot tell which interpreters this artifact supports
 
-            if endswith_any(text, _DISTRIBUTION_EXTENSIONS):
-                self.artifacts.append(PackageArtifact(text, requires_python, {'url': url}))
+            url = urljoin(self._page_url, attrs['href'])
+            self.artifacts.append(PackageArtifact(text, requires_python, {'url': url}))
 
 
 class _SimplePackage(AbstractPackage, Serializable):
-- 
2.43.0


From 45a15b9aee3d53c6e4476889bcd9d4c6f05f8cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 037/122] fix: a release file with a malformed python
 requirement is skipped instead of failing the whole listing

---
 pkm/src/pkm/repositories/pypi_repository.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index 6577c9f..5854f1a 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -132,9 +132,12 @@ def _create_artifact_from_pypi_release(release: Dict[str, Any]) -> Optional[Pack
     if not file_name:
         return None
 
-    return PackageArtifact(
-        file_name, VersionSpecifier.parse(requires_python) if requires_python else None, release
-    )
+    try:
+        requires_python_spec = VersionSpecifier.parse(requires_python) if requires_python else None
+    except ValueError:
+        return None  # cannot tell which interpreters this artifact supports
+
+    return PackageArtifact(file_name, requires_python_spec, release)
 
 
 # https://warehouse.pypa.io/api-reference/legacy.html
-- 
2.43.0


From 7f0b2a9a225495638c079f37c4f76822dbd8a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 038/122] fix: file repositories match packages by their
 normalized name

---
 pkm/src/pkm/repositories/file_system_repository.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/repositories/file_system_repository.py b/pkm/src/pkm/repositories/file_system_repository.py
index 55a5b08..aed4a78 100644
--- a/pkm/src/pkm/repositories/file_system_repository.py
+++ b/pkm/src/pkm/repositories/file_system_repository.py
@@ -5,7 +5,7 @@ from typing import List, Dict, Optional
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.distribution import Distribution
 from pkm.api.environments.environment import Environment
-from pkm.api.packages.package import Package
+from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.projects.project import Project
 from pkm.api.projects.project_group import ProjectGroup
 from pkm.api.repositories.repository import AbstractRepository, RepositoryBuilder, Repository
@@ -19,10 +19,13 @@ class PackagesDictRepository(AbstractRepository):
 
     def __init__(self, name: str, packages: Dict[str, List[Package]]):
         super().__init__(name)
-        self._packages = packages
+        self._packages: Dict[str, List[Package]] = defaultdict(list)  # name key -> packages
+        for name_packages in packages.values():
+            for package in name_packages:
+                self._packages[package.name_key].append(package)
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
-        all_packages = self._packages.get(dependency.package_name) or []
+        all_packages = self._packages.get(PackageDescriptor.package_name_key(dependency.package_name)) or []
         return self._sorted_by_version([p for p in all_packages if dependency.version_spec.allows_version(p.version)])
 
 
-- 
2.43.0


From b703c2cb016c9f2eedf12a068232c2180ec2c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 039/122] fix: package descriptors are read from names of
 source distributions

---
 pkm/src/pkm/api/packages/package.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index 03c6a08..8d1a71a 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -10,6 +10,7 @@ from pkm.api.versions.version import Version, StandardVersion
 from pkm.api.versions.version_specifiers import VersionMatch, StandardVersionRange
 from pkm.utils.commons import UnsupportedOperationException
 from pkm.utils.properties import cached_property
+from pkm.utils.strings import endswith_any
 
 if TYPE_CHECKING:
     from pkm.api.environments.environment import Environment
@@ -103,9 +104,14 @@ class PackageDescriptor:
         :param name: the file name
         :return: the resulted package descriptor
         """
-        parts = name.split("-")
-        version = Version.parse(parts[1])
-        return PackageDescriptor(parts[0], version)
+        if name.endswith('.whl'):
+            dist_name, version = name.split("-")[:2]
+        else:
+            # the version is the last part, source distributions may have names that contain dashes
+            dist_name, _, version = name[:-len(ext)].rpartition("-") \
+                if (ext := endswith_any(name, ('.tar.gz', '.zip'))) else name.rpartition("-")
+
+        return PackageDescriptor(dist_name, Version.parse(version))
 
 
 class Package(ABC):
-- 
2.43.0


From 7614f7a7e9edea76c3533fda206112db7306fa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 040/122] fix: packages of distribution files report the
 dependencies and python requirement in their metadata

---
 pkm/src/pkm/api/distributions/distribution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/distribution.py b/pkm/src/pkm/api/distributions/distribution.py
index 951743c..7ea8fc1 100644
--- a/pkm/src/pkm/api/distributions/distribution.py
+++ b/pkm/src/pkm/api/distributions/distribution.py
@@ -88,13 +88,14 @@ class _DistributionPackage(Package, Serializable):
     def dependencies(
             self, target: "PackageInstallationTarget",
             extras: Optional[List[str]] = None) -> List["Dependency"]:
-        return [d for d in self.published_metadata.dependencies if d.is_applicable_for(target.env, extras)]
+        return [d for d in self._metadata(target.env).dependencies if d.is_applicable_for(target.env, extras)]
 
     def is_compatible_with(self, env: "Environment") -> bool:
         from pkm.api.distributions.wheel_distribution import WheelDistribution
 
         if isinstance(self._dist, WheelDistribution):
-            return env.compatibility_tag_score(self._dist.compute_compatibility_tags()) is not None
+            return env.compatibility_tag_score(self._dist.compute_compatibility_tags()) is not None \
+                and self._metadata(env).required_python_spec.allows_version(env.interpreter_version)
         return True
 
     def install_to(
-- 
2.43.0


From 04f966bd910228d4c2ceaa2a24c69bf628619c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 041/122] fix: urls and arbitrary names are not within ranges
 of standard versions

---
 pkm/src/pkm/api/versions/version_specifiers.py | 3 +++
 pkm/src/pkm/resolution/pubgrub.py              | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index d8865d7..77eaf0d 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -655,6 +655,9 @@ class StandardVersionRange(VersionSpecifier):
         raise NotImplemented()
 
     def allows_version(self, version: Version) -> bool:
+        if not isinstance(version, StandardVersion):
+            return False  # urls and arbitrary names have no place between standard versions
+
         min_, max_ = self.min, self.max
         if (min_ is not None and self.includes_min and min_ == version) \
                 or (max_ is not None and self.includes_max and max_ == version):
diff --git a/pkm/src/pkm/resolution/pubgrub.py b/pkm/src/pkm/resolution/pubgrub.py
index 2735a05..0334e7c 100644
--- a/pkm/src/pkm/resolution/pubgrub.py
+++ b/pkm/src/pkm/resolution/pubgrub.py
@@ -8,7 +8,7 @@ from dataclasses import dataclass, replace
 from itertools import chain
 from typing import List, Dict, Iterable, Tuple, Optional, cast, DefaultDict, Union, Any, TypeVar, Protocol, Generic
 
-from pkm.api.versions.version import Version, StandardVersion, NamedVersion
+from pkm.api.versions.version import Version, StandardVersion
 from pkm.api.versions.version_specifiers import VersionSpecifier, VersionMatch, AllowAllVersions, \
     RestrictAllVersions
 from pkm.resolution.resolution_monitor import DependencyResolutionIterationEvent, \
@@ -31,7 +31,7 @@ PKG_T = TypeVar('PKG_T', bound=PKG)
 
 # artificial version which denotes that a package is not part of the solution, the constraint of a term that requires
 # the package to be part of the solution does not allow this version, while the negation of such term does.
-_UNSELECTED = NamedVersion('<unselected>')
+_UNSELECTED = StandardVersion(release=(-1,))  # comes before any real version
 _SELECTED = VersionMatch(_UNSELECTED, False)
 _LOWEST_VERSION = cast(StandardVersion, Version.parse('0.dev0'))
 
-- 
2.43.0


From 7359f1b6984e6cc4e93c23db56579498dc60fd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 042/122] fix: musllinux tags are read instead of failing

---
 pkm/src/pkm/api/environments/environment_introspection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 124eb5a..443ca52 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -316,7 +316,7 @@ class EnvironmentIntrospection:
                     return None
 
                 if my_musl_version is not None and plt_no_arch.startswith("musllinux_"):
-                    musl_ver = tuple(int(it) for it in plt_no_arch.split("_"))[1:3]
+                    musl_ver = tuple(int(it) for it in plt_no_arch.split("_")[1:3])
                     if len(musl_ver) != 2 or musl_ver[0] != my_musl_version[0] or musl_ver[1] > my_musl_version[1]:
                         return None
                     return (1, *vdscore(my_musl_version, musl_ver))
-- 
2.43.0


From a2906def6a6a4eedea02c47e75d0df0b7c7a6e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 043/122] fix: systems without glibc do not reject every wheel

---
 pkm/src/pkm/api/environments/environment_introspection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 443ca52..4280564 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -294,7 +294,7 @@ class EnvironmentIntrospection:
             my_glibc_version = None
             my_musl_version = None
             if (elf := _ElfData.read(Path(self.interpreter_path))) and elf.have_compatible_abi(my_arch):
-                my_glibc_version = self._glibc_version.release[:2]
+                my_glibc_version = self._glibc_version.release[:2] if self._glibc_version else None
                 my_musl_version = elf.compute_musl_version()
 
             def linux_score(plt: str) -> Optional[Tuple]:
-- 
2.43.0


From 8b4b24d12e43bd62e0cbbd1c84cbf0175334556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 044/122] fix: wheels for older interpreters are only
 installable if they use the stable abi

---
 pkm/src/pkm/api/environments/environment_introspection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 4280564..acd4e25 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -377,6 +377,12 @@ class EnvironmentIntrospection:
             if my_ipt_version[0] != ipt_version[0] or my_ipt_version[1] < ipt_version[1]:
                 return None
 
+            # pure python tags have no abi, and code for older interpreters can only be used via the stable abi
+            if ipt.startswith('py') and abi != 'none':
+                return None
+            if ipt.startswith(my_ipt) and my_ipt_version[1] != ipt_version[1] and abi != 'abi3':
+                return None
+
             score_components.append(vdscore(my_ipt_version, ipt_version)[1])
 
             return tuple(score_components)
-- 
2.43.0


From 4d926dbb6b0a8ccace8991188110044a9f003945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 045/122] fix: compatibility tags with older or unspecific
 versions rank lower

---
 pkm/src/pkm/api/environments/environment_introspection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index acd4e25..9a3726e 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -326,7 +326,7 @@ class EnvironmentIntrospection:
         def vdscore(v1: Tuple, v2: Tuple) -> Tuple:
             if v1[0] == v2[0]:
                 return 1, 1 / (1 + abs(v1[1] - v2[1]))
-            return 1 / (1 + abs(v1[0] - v2[0])), 0
+            return 1 / (1 + abs(v1[0] - v2[0])), 1 - 1 / (1 + min(v1, v2)[1])
 
         # precomputation done. now for creating the scorer
 
@@ -383,7 +383,8 @@ class EnvironmentIntrospection:
             if ipt.startswith(my_ipt) and my_ipt_version[1] != ipt_version[1] and abi != 'abi3':
                 return None
 
-            score_components.append(vdscore(my_ipt_version, ipt_version)[1])
+            # tags with a major version only are less specific than the version itself but more than any older one
+            score_components.append(0.75 if len(ipt_version_nodot_str) == 1 else vdscore(my_ipt_version, ipt_version)[1])
 
             return tuple(score_components)
 
-- 
2.43.0


From 68cbad8ce3818c7d250659e1a4161ab7c930be1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 046/122] fix: the loader of 32 bit executables is found

---
 pkm/src/pkm/api/environments/environment_introspection.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 9a3726e..6d0402c 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -499,7 +499,8 @@ class _ElfStructs:
         e = "<" if is_little_endian else ">"
 
         self.header_suffix = Struct(f"{e}2HI3{L}I6H")
-        self.program_header = Struct(f"{e}2I4{L}")
+        # as of the position of the flags, the fields are ordered differently: this reads type, offset and file size
+        self.program_header = Struct(f"{e}2I8xI12x") if is_32_bit else Struct(f"{e}I4xQ16xQ16x")
 
 
 def _unpack(fd: IO, struct: Struct) -> Tuple:
@@ -567,8 +568,8 @@ class _ElfData:
                 fd.seek(ph_offset + i * ph_size)
                 header = _unpack(fd, structs.program_header)
                 if header[0] == _PT_INTERP:
-                    sz = header[5]
-                    fd.seek(header[2])
+                    sz = header[2]
+                    fd.seek(header[1])
                     interpreter = os.fsdecode(fd.read(sz)).strip("\0")
                     break
 
-- 
2.43.0


From 12c5af7e8f7d1030412dcc18d794a2915e81c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 047/122] fix: the three-way universal macos binary format is
 called fat3

---
 pkm/src/pkm/api/environments/environment_introspection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 6d0402c..563a4f4 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -449,12 +449,12 @@ def _mac_binary_formats(version: Tuple[int, ...], cpu_arch: str) -> List[str]:
     if cpu_arch == "x86_64":
         if version < (10, 4):
             return []
-        formats.extend(["intel", "fat64", "fat32"])
+        formats.extend(["intel", "fat64", "fat3"])
 
     elif cpu_arch == "i386":
         if version < (10, 4):
             return []
-        formats.extend(["intel", "fat32", "fat"])
+        formats.extend(["intel", "fat3", "fat"])
 
     elif cpu_arch == "ppc64":
         if version > (10, 5) or version < (10, 4):
@@ -464,7 +464,7 @@ def _mac_binary_formats(version: Tuple[int, ...], cpu_arch: str) -> List[str]:
     elif cpu_arch == "ppc":
         if version > (10, 6):
             return []
-        formats.extend(["fat32", "fat"])
+        formats.extend(["fat3", "fat"])
 
     if cpu_arch in {"arm64", "x86_64"}:
         formats.append("universal2")
-- 
2.43.0


From c541b0cc559555b95048475ed78a08c65835a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 048/122] fix: 32 bit interpreters on 64 bit systems do not
 accept 64 bit wheels

---
 pkm/src/pkm/api/environments/environment_introspection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 563a4f4..8c38082 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -289,6 +289,7 @@ class EnvironmentIntrospection:
                 elif my_platform == "linux_aarch64":
                     my_linux = "linux_armv7l"
 
+            my_platform = my_linux  # 32 bit interpreters cannot load what the 64 bit system could
             _, my_arch = my_linux.split("_", 1)
 
             my_glibc_version = None
-- 
2.43.0


From ef4784c5d2a4beee41c74d3d696a3605b3108541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:17 +0000
Subject: [PATCH 049/122] fix: locked packages are found by their normalized
 name

---
 pkm/src/pkm/resolution/packages_lock.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/resolution/packages_lock.py b/pkm/src/pkm/resolution/packages_lock.py
index 348b0bd..e330d20 100644
--- a/pkm/src/pkm/resolution/packages_lock.py
+++ b/pkm/src/pkm/resolution/packages_lock.py
@@ -38,7 +38,7 @@ class PackagesLock:
     def __init__(self, locked_packages: Optional[List[_LockedVersion]] = None, lock_file: Optional[Path] = None):
         locked_packages = unone(locked_packages, list)
         self._locked_packages: Dict[str, List[_LockedVersion]] = \
-            groupby(locked_packages, lambda it: it.package.name)
+            groupby(locked_packages, lambda it: it.package.name_key)
         self._lock_file = lock_file
 
     def unlock_packages(self, package_names: Iterable[str]) -> PackagesLock:
@@ -49,7 +49,7 @@ class PackagesLock:
         :return self (for chaining support)
         """
         for pn in package_names:
-            self._locked_packages.pop(pn, None)
+            self._locked_packages.pop(PackageDescriptor.package_name_key(pn), None)
 
         return self
 
@@ -71,7 +71,7 @@ class PackagesLock:
         """
 
         relevant_locks = [lp for lst in self._locked_packages.values() for lp in lst] if not package else \
-            [lp for lp in (self._locked_packages.get(package) or ())]
+            [lp for lp in (self._locked_packages.get(PackageDescriptor.package_name_key(package)) or ())]
 
         if not relevant_locks:
             return []
@@ -102,7 +102,7 @@ class PackagesLock:
         for package in env.site_packages.installed_packages():
             new_locks.append(_LockedVersion(env_hash, package.descriptor))
 
-        self._locked_packages = groupby(new_locks, lambda it: it.package.name)
+        self._locked_packages = groupby(new_locks, lambda it: it.package.name_key)
         return self
 
     def save(self, lock_file: Optional[Path] = None):
-- 
2.43.0


From f40cd7051f6599c98f2d1874f4f44e5e0f212551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:17 +0000
Subject: [PATCH 050/122] fix: the version locked for an environment is
 preferred to those locked for others

---
 pkm/src/pkm/resolution/packages_lock.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/resolution/packages_lock.py b/pkm/src/pkm/resolution/packages_lock.py
index e330d20..98c1376 100644
--- a/pkm/src/pkm/resolution/packages_lock.py
+++ b/pkm/src/pkm/resolution/packages_lock.py
@@ -120,8 +120,10 @@ class PackagesLock:
 
     def sort_packages_by_lock_preference(self, env: Environment, packages: List[Package]) -> List[Package]:
         if packages:
-            locked_versions = {lp.version for lp in self.locked_versions(env, packages[0].name)}
-            packages.sort(key=lambda it: 0 if it.version in locked_versions else 1)
+            locked_versions = [lp.version for lp in self.locked_versions(env, packages[0].name)]
+            # the version that is locked for this environment comes first, then those locked for others
+            env_locked = locked_versions[:1]
+            packages.sort(key=lambda it: 0 if it.version in env_locked else 1 if it.version in locked_versions else 2)
 
         return packages
 
-- 
2.43.0


From faf3c6a7e8e719c428015be533569c68b2c1f82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:49 +0000
Subject: [PATCH 051/122] fix: toml strings, numbers, dates and trailing
 comments are read as specified

---
 pkm/src/pkm/config/toml.py | 116 +++++++++++++++++++++++--------------
 1 file changed, 71 insertions(+), 45 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index c3498b3..fc26dc3 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -1,13 +1,33 @@
 import re
 from copy import copy
 from dataclasses import dataclass
+from datetime import date, time
 from numbers import Number
 from pathlib import Path
 from typing import Optional, Dict, Any, Mapping, List, Tuple, Union, MutableMapping, Callable
 
 from pkm.utils.parsers import SimpleParser
 
-_KEY_RX = re.compile(r'[a-zA-Z\d\-_]+')
+_KEY_RX = re.compile(r'[a-zA-Z0-9\-_]+')
+
+# strings: control characters are not allowed, the multiline ones may end with up to two additional quotes
+_BASIC_STR_RX = re.compile(r'"((?:[^"\\\x00-\x08\x0a-\x1f\x7f]|\\[^\n])*)"')
+_LITERAL_STR_RX = re.compile(r"'([^'\x00-\x08\x0a-\x1f\x7f]*)'")
+_MULTILINE_BASIC_STR_RX = re.compile(
+    r'"""(?:\r?\n)?((?:[^"\\\x00-\x08\x0b\x0c\x0e-\x1f\x7f]|\\(?:.|\n)|"{1,2}(?!"))*"{0,2})"""')
+_MULTILINE_LITERAL_STR_RX = re.compile(
+    r"'''(?:\r?\n)?((?:[^'\x00-\x08\x0b\x0c\x0e-\x1f\x7f]|'{1,2}(?!'))*'{0,2})'''")
+
+_DATE_RX = re.compile(
+    r'(?P<date>\d{4}-\d{2}-\d{2})(?:[Tt ](?P<datetime>\d{2}:\d{2}:\d{2})(?:\.\d+)?(?:[Zz]|[+-](?P<offset>\d{2}:\d{2}))?)?'
+    r'|(?P<time>\d{2}:\d{2}:\d{2})(?:\.\d+)?', re.ASCII)
+_NUMBER_RX = re.compile(
+    r'(?P<based>0(?:x[0-9a-fA-F](?:_?[0-9a-fA-F])*|o[0-7](?:_?[0-7])*|b[01](?:_?[01])*))'
+    r'|[+-]?(?:(?P<special>inf|nan)'
+    r'|(?:0|[1-9](?:_?[0-9])*)(?P<fraction>(?:\.[0-9](?:_?[0-9])*)?(?:[eE][+-]?[0-9](?:_?[0-9])*)?))')
+
+_ESCAPE_RX = re.compile(r'\\(?:u([0-9a-fA-F]{4})|U([0-9a-fA-F]{8})|([ \t]*\r?\n[ \t\r\n]*)|(.))', re.DOTALL)
+_ESCAPES = {'b': '\b', 't': '\t', 'n': '\n', 'f': '\f', 'r': '\r', '"': '"', '\\': '\\'}
 KEY_T = Tuple
 DUMPS_T = Callable[[Dict[str, Any]], str]
 
@@ -407,45 +427,45 @@ class _TomlParser(SimpleParser):
             result += self.match_ws(allow_new_lines)
             n = self.peek()
             if n == '#':  # comment
-                result += self.until_match('\n')
+                result += self.until(lambda i, t: t[i] == '\n')
             else:
                 break
 
         return result
 
-    def read_multiline_basic_str(self) -> str:
-        self.match_or_err('"""', 'multiline basic string expected')
-        s = '"""' + self.until_match('"""')
-        while s[-1] == '\\':
-            s += self.next(3) + self.until_match('"""')
-
-        s += '"""'
-        self.match_or_err('"""', 'multiline basic string ending expected')
+    def _match_str(self, rx: "re.Pattern", kind: str) -> str:
+        if not (match := rx.match(self.text, self.position)):
+            self.raise_err(f"malformed or unterminated {kind}")
+        self.position = match.end()
+        return match.group(1)
+
+    def _unescape(self, s: str) -> str:
+        def _replace(match: "re.Match") -> str:
+            codepoint_4, codepoint_8, line_continuation, char = match.groups()
+            if codepoint := codepoint_4 or codepoint_8:
+                codepoint = int(codepoint, 16)
+                if codepoint > 0x10ffff or 0xd800 <= codepoint <= 0xdfff:
+                    self.raise_err("escaped character is not a unicode scalar value")
+                return chr(codepoint)
+            if line_continuation:
+                return ''
+            if char not in _ESCAPES:
+                self.raise_err(f"unknown escape sequence \\{char}")
+            return _ESCAPES[char]
+
+        return _ESCAPE_RX.sub(_replace, s)
 
-        return eval(s)
+    def read_multiline_basic_str(self) -> str:
+        return self._unescape(self._match_str(_MULTILINE_BASIC_STR_RX, 'multiline basic string'))
 
     def read_multiline_literal_str(self) -> str:
-        self.match_or_err("'''", 'multiline literal string expected')
-        string = self.until_match("'''")
-        self.match_or_err("'''", "missing multiline literal string closing")
-        return string
+        return self._match_str(_MULTILINE_LITERAL_STR_RX, 'multiline literal string')
 
     def read_basic_str(self) -> str:
-        self.match_or_err('"', 'basic string expected')
-        s = '"' + self.until_match('"')
-        while s[-1] == '\\':
-            s += self.next() + self.until_match('"')
-
-        s += '"'
-        self.match_or_err('"', 'basic string ending expected')
-
-        return eval(s)
+        return self._unescape(self._match_str(_BASIC_STR_RX, 'basic string'))
 
     def read_literal_str(self) -> str:
-        self.match_or_err("'", 'literal string expected')
-        string = self.until_match("'")
-        self.match_or_err("'", "missing literal string closing")
-        return string
+        return self._match_str(_LITERAL_STR_RX, 'literal string')
 
     def read_str(self) -> str:
         n = self.peek(3)
@@ -529,25 +549,29 @@ class _TomlParser(SimpleParser):
             dtable_key = (*table_key, *key[0:i])
             self.style.update_value_auto_display(dtable_key, {}, display)
 
-    def read_date(self) -> TimeLiteral:
-        ts = self.until(lambda s, i: s[i].isnumeric() or s[i] in '-.: TZ')
-        return TimeLiteral(ts)
-
     def read_number_or_date(self) -> Union[Number, TimeLiteral]:
-        pos = self.position
-
-        sign = (self.match('-') and '-') or (self.match('+') and '+') or ''
-        nstr = sign + self.until(lambda i, s: not s[i].isnumeric() and s[i] not in '.e')
-
-        n = self.peek()
-        if n in '-:':
-            self.position = pos
-            return self.read_date()
-
-        if not nstr:
+        if match := _DATE_RX.match(self.text, self.position):
+            try:
+                if match['date']:
+                    date.fromisoformat(match['date'])
+                for time_part in (match['datetime'], match['time'], match['offset']):
+                    if time_part:
+                        time.fromisoformat(time_part)
+            except ValueError as e:
+                self.raise_err(f"illegal date or time: {e}")
+
+            self.position = match.end()
+            return TimeLiteral(match.group())
+
+        if not (match := _NUMBER_RX.match(self.text, self.position)):
             self.raise_err("number expected")
 
-        return eval(nstr)
+        self.position = match.end()
+        if match['based']:
+            return int(match.group().replace('_', ''), 0)
+        if match['special'] or match['fraction']:
+            return float(match.group().replace('_', ''))
+        return int(match.group().replace('_', ''))
 
     def read_bool(self) -> bool:
         if self.match('true'):
@@ -605,7 +629,9 @@ class _TomlParser(SimpleParser):
         p = self.position
         n = self.peek()
         result = None
-        if n in "+-" or n.isnumeric():
+        if not n:
+            self.raise_err("value expected")
+        elif n in "+-in" or n.isnumeric():  # "inf" and "nan" are numbers
             result = self.read_number_or_date()
             value_str = self.text[p:self.position]
         elif n in '\'"':
-- 
2.43.0


From bef3c52d71d1941018f21621a29c2672b8b9b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 052/122] fix: tables are defined once, in any order, and
 saving toml keeps all values, comments and empty tables

---
 pkm/src/pkm/config/toml.py | 483 ++++++++++++++++++-------------------
 1 file changed, 238 insertions(+), 245 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index fc26dc3..9c5fd79 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -4,19 +4,22 @@ from dataclasses import dataclass
 from datetime import date, time
 from numbers import Number
 from pathlib import Path
-from typing import Optional, Dict, Any, Mapping, List, Tuple, Union, MutableMapping, Callable
+from typing import Optional, Dict, Any, Mapping, List, Tuple, Union, Callable
 
 from pkm.utils.parsers import SimpleParser
 
 _KEY_RX = re.compile(r'[a-zA-Z0-9\-_]+')
+_INLINE_WS_RX = re.compile(r'[ \t]*')
+_WS_RX = re.compile(r'[ \t\n]*')
+_COMMENT_RX = re.compile(r'#[^\x00-\x08\x0a-\x1f\x7f]*')
 
 # strings: control characters are not allowed, the multiline ones may end with up to two additional quotes
 _BASIC_STR_RX = re.compile(r'"((?:[^"\\\x00-\x08\x0a-\x1f\x7f]|\\[^\n])*)"')
 _LITERAL_STR_RX = re.compile(r"'([^'\x00-\x08\x0a-\x1f\x7f]*)'")
 _MULTILINE_BASIC_STR_RX = re.compile(
-    r'"""(?:\r?\n)?((?:[^"\\\x00-\x08\x0b\x0c\x0e-\x1f\x7f]|\\(?:.|\n)|"{1,2}(?!"))*"{0,2})"""')
+    r'"""\n?((?:[^"\\\x00-\x08\x0b-\x1f\x7f]|\\(?:.|\n)|"{1,2}(?!"))*"{0,2})"""')
 _MULTILINE_LITERAL_STR_RX = re.compile(
-    r"'''(?:\r?\n)?((?:[^'\x00-\x08\x0b\x0c\x0e-\x1f\x7f]|'{1,2}(?!'))*'{0,2})'''")
+    r"'''\n?((?:[^'\x00-\x08\x0b-\x1f\x7f]|'{1,2}(?!'))*'{0,2})'''")
 
 _DATE_RX = re.compile(
     r'(?P<date>\d{4}-\d{2}-\d{2})(?:[Tt ](?P<datetime>\d{2}:\d{2}:\d{2})(?:\.\d+)?(?:[Zz]|[+-](?P<offset>\d{2}:\d{2}))?)?'
@@ -26,7 +29,7 @@ _NUMBER_RX = re.compile(
     r'|[+-]?(?:(?P<special>inf|nan)'
     r'|(?:0|[1-9](?:_?[0-9])*)(?P<fraction>(?:\.[0-9](?:_?[0-9])*)?(?:[eE][+-]?[0-9](?:_?[0-9])*)?))')
 
-_ESCAPE_RX = re.compile(r'\\(?:u([0-9a-fA-F]{4})|U([0-9a-fA-F]{8})|([ \t]*\r?\n[ \t\r\n]*)|(.))', re.DOTALL)
+_ESCAPE_RX = re.compile(r'\\(?:u([0-9a-fA-F]{4})|U([0-9a-fA-F]{8})|([ \t]*\n[ \t\n]*)|(.))', re.DOTALL)
 _ESCAPES = {'b': '\b', 't': '\t', 'n': '\n', 'f': '\f', 'r': '\r', '"': '"', '\\': '\\'}
 KEY_T = Tuple
 DUMPS_T = Callable[[Dict[str, Any]], str]
@@ -44,7 +47,7 @@ class _ValueSignature:
             # return type(other) == type(self._value)
             return isinstance(other, type(self._value))
 
-        return id(self._value) == id(other) or self._value == other
+        return type(self._value) is type(other) and (self._value is other or self._value == other)
 
 
 _none_signature = _ValueSignature(None)
@@ -84,11 +87,11 @@ class _KeyStyle:
     prolog: str = ''
     epilog: str = ''
     key_str: Optional[str] = None
+    key_offset: int = 0  # the amount of leading key parts that `key_str` does not include
     display: str = 'auto'
 
 
 _DEFAULT_VALUE_STYLE = _ValueStyle()
-_DEFAULT_KEY_STYLE = _KeyStyle()
 
 
 class _StyleSheet:
@@ -96,11 +99,6 @@ class _StyleSheet:
         self.keys: Dict[KEY_T, _KeyStyle] = {}
         self.values: Dict[KEY_T, _ValueStyle] = {}
 
-    def lastify(self, key: KEY_T) -> KEY_T:
-        lk = len(key) + 1
-        index = sum(len(k) == lk and k[:-1] == key for k in self.keys.keys())
-        return *key, index
-
     def set_key_style(self, key: KEY_T, style: _KeyStyle):
         self.keys[key] = style
 
@@ -108,24 +106,12 @@ class _StyleSheet:
         style.value_sig = _ValueSignature(value)
         self.values[key] = style
 
-    def update_value_auto_display(self, key: KEY_T, value: Any, display: str):
-        if key not in self.values:
-            self.set_value_style(key, value, _ValueStyle(display=display))
-        else:
-            vstyle = self.values[key]
-            if vstyle.display == 'auto':
-                vstyle.display = display
-
-    def key_style(self, key: KEY_T, display: str = 'auto') -> _KeyStyle:
-        result = self.keys.get(key) or _DEFAULT_KEY_STYLE
-
-        if display != 'auto' and result.display != display:
-            result = copy(result)
-            result.display = display
-            if display == 'assignment':
-                result.epilog = ' '
+    def key_style(self, key: KEY_T, offset: int, display: str) -> _KeyStyle:
+        result = self.keys.get(key)
+        if result and result.display == display and result.key_offset == offset:
+            return result
 
-        return result
+        return _KeyStyle(epilog=' ' if display == 'assignment' else '', display=display)
 
     def value_style(self, key: KEY_T, value: Any, display: str = 'auto') -> _ValueStyle:
         predefined_style = self.values.get(key)
@@ -139,6 +125,8 @@ class _StyleSheet:
             return predefined_style
 
         vstyle = copy(predefined_style)
+        if vstyle.display != 'auto':  # the surroundings of one display may be illegal in another
+            vstyle.prolog = vstyle.epilog = vstyle.content_trailing = ''
 
         if display != 'auto':
             vstyle.display = display
@@ -158,7 +146,7 @@ class _StyleSheet:
 
                 if is_root:
                     vstyle.display = 'regular'
-                elif has_no_assignments:
+                elif value and has_no_assignments:
                     vstyle.display = 'hidden'
                 elif contains_large_data or is_first_level:
                     vstyle.display = 'regular'
@@ -183,7 +171,7 @@ class _Writer:
 
     def write(self, data: Dict[str, Any]) -> str:
         key = ()
-        return self._write_value(data, key, self.style.value_style(key, data)).rstrip()
+        return self._write_regular_table(data, key, self.style.value_style(key, data, 'regular')).rstrip()
 
     def _write_value(self, data: Any, key: KEY_T, vstyle: _ValueStyle) -> str:
         if isinstance(data, bool):
@@ -228,10 +216,15 @@ class _Writer:
         def _write_value(v: Any, i: int) -> str:
             k = (*key, i)
             s = self.style.value_style(k, v, 'inline')
-            return self._write_value(v, k, s)
-
-        result += ', '.join(_write_value(v, i).strip(' ') for i, v in enumerate(data))
-        result += f'{vstyle.content_trailing}]{vstyle.epilog}'
+            item = self._write_value(v, k, s)
+            return item if s is self.style.values.get(k) or i > 0 else item.lstrip(' ')
+
+        result += ','.join(_write_value(v, i) for i, v in enumerate(data))
+        # a trailing comma is not allowed in an empty list
+        content_trailing = vstyle.content_trailing
+        if not data and content_trailing.startswith(','):
+            content_trailing = ''
+        result += f'{content_trailing}]{vstyle.epilog}'
         return result
 
     def _write_table(self, data: Mapping[str, Any], key: KEY_T, vstyle: _ValueStyle) -> str:
@@ -244,15 +237,13 @@ class _Writer:
         if vstyle.display == 'inline':
             return self._write_inline_table(data, key, vstyle)
 
-        if vstyle.display == 'dotted':
-            return self._write_dotted_table(data, key, vstyle)
-
         raise ValueError(f"unknown table display style: {vstyle.display}")
 
     def _write_str(self, data: str, vstyle: _ValueStyle) -> str:
         value_str = vstyle.value_str
         if value_str is None:
             escaped = data.translate({
+                **{c: f'\\u{c:04x}' for c in (*range(0x20), 0x7f)},
                 ord('\b'): '\\b',
                 ord('\t'): '\\t',
                 ord('\n'): '\\n',
@@ -266,13 +257,13 @@ class _Writer:
 
         return f'{vstyle.prolog}{value_str}{vstyle.epilog}'
 
-    def _write_key(self, key: KEY_T, offset: int, display: str) -> str:
+    def _write_key(self, key: KEY_T, offset: int, display: str, inline: bool = False) -> str:
 
         if not key:
             return ''
 
-        key_style = self.style.key_style(key, display)
-        result = key_style.prolog
+        key_style = self.style.key_style(key, offset, display)
+        result = '' if inline and any(c in key_style.prolog for c in '#\n') else key_style.prolog
 
         key_str = key_style.key_str
         if not key_str:
@@ -314,30 +305,35 @@ class _Writer:
         result += self._write_key(key, 0, key_display)
 
         delayed_items: Dict[KEY_T, Any] = {}
-        has_assignments = False
+        assignments = self._write_assignments(data, key, len(key), delayed_items)
+        if assignments:
+            result += f"{assignments}\n"
+
+        for item_key, item in delayed_items.items():
+            result += self._write_value(item, item_key, self.style.value_style(item_key, item))
+
+        result += vstyle.epilog
+
+        return result
 
+    def _write_assignments(
+            self, data: Mapping[str, Any], key: KEY_T, offset: int, delayed_items: Dict[KEY_T, Any]) -> str:
+
+        result = ''
         for partial_key, item in data.items():
             item_key = (*key, partial_key)
             item_style = self.style.value_style(item_key, item)
 
-            if item_style.display == 'inline':
-                result += f"{self._write_key(item_key, len(key), 'assignment')}" \
+            if item_style.display == 'dotted' and not item:
+                item_style = self.style.value_style(item_key, item, 'inline')
+
+            if item_style.display == 'dotted':
+                result += self._write_assignments(item, item_key, offset, delayed_items)
+            elif item_style.display == 'inline':
+                result += f"{self._write_key(item_key, offset, 'assignment')}" \
                           f"={self._write_value(item, item_key, item_style)}\n"
-                has_assignments = True
             else:
-                if item_style.display == 'dotted':
-                    result += self._write_value(item, item_key, self.style.value_style(item_key, item))
-                    has_assignments = True
-                else:
-                    delayed_items[item_key] = item
-
-        if has_assignments:
-            result += '\n'
-
-        for item_key, item in delayed_items.items():
-            result += self._write_value(item, item_key, self.style.value_style(item_key, item))
-
-        result += vstyle.epilog
+                delayed_items[item_key] = item
 
         return result
 
@@ -345,65 +341,50 @@ class _Writer:
     def _write_hidden_table(self, data: Mapping[str, Any], key: KEY_T, vstyle: _ValueStyle) -> str:
         result = ''
 
+        if not data:
+            return self._write_regular_table(data, key, self.style.value_style(key, data, 'regular'))
+
         for partial_key, item in data.items():
             item_key = (*key, partial_key)
 
             is_list = isinstance(item, List)
             is_table = isinstance(item, Mapping)
 
-            inappropriate_item = not is_list and not is_table
-            inappropriate_item = inappropriate_item or is_list and any(not isinstance(it, Mapping) for it in item)
-
-            if inappropriate_item:
-                return self._write_regular_table(data, key, self.style.value_style(key, data, 'regular'))
-
             item_style = self.style.value_style(item_key, item)
-            if item_style.display == 'inline':
+            if is_table and item_style.display == 'inline':
                 item_style = self.style.value_style(item_key, item, 'regular')
 
-            if is_list:
+            if is_list and item_style.display == 'table-array':
                 result += self._write_table_list(item, item_key, item_style)
-            elif item_style.display == 'hidden':
+            elif is_table and item_style.display == 'hidden':
                 result += self._write_hidden_table(item, item_key, item_style)
-            else:
+            elif is_table and item_style.display == 'regular':
                 result += self._write_regular_table(item, item_key, item_style)
+            else:  # cannot be displayed without the table itself
+                return self._write_regular_table(data, key, self.style.value_style(key, data, 'regular'))
 
         return result
 
     def _write_inline_table(self, data: Mapping[str, Any], key: KEY_T, vstyle: _ValueStyle) -> str:
         result = f"{vstyle.prolog}{{"
 
-        def _write_assignment(partial_key: str, item: Any) -> str:
+        def _write_assignment(partial_key: str, item: Any, is_first: bool) -> str:
             item_key = (*key, partial_key)
             item_style = self.style.value_style(item_key, item, 'inline')
 
-            return f"{self._write_key(item_key, len(key), 'assignment')}" \
-                   f"={self._write_value(item, item_key, item_style)}"
-
-        result += ', '.join(_write_assignment(k, v) for k, v in data.items())
-        result += f"}}{vstyle.epilog}"
-        return result
-
-    def _write_dotted_table(self, data: Mapping[str, Any], key: KEY_T, vstyle: _ValueStyle) -> str:
-        subkey = self._write_key_part(key)
-        result = ""
+            # new lines and comments are not allowed between the parts of an inline table
+            if any(c in item_style.prolog + item_style.epilog for c in '#\n'):
+                item_style = copy(item_style)
+                item_style.prolog, item_style.epilog = ' ', ''
 
-        def _write_assignment(partial_key: str, item: Any) -> str:
-            item_key = (*key, partial_key)
-            key_style = self.style.key_style(item_key)
-            key_str = self._write_key(item_key, len(key), 'assignment')
-            if not key_style.key_str:
-                key_str = f"{subkey}.{key_str}"
-            item_style = self.style.value_style(item_key, item, 'inline')
-            value_str = self._write_value(item, item_key, item_style)
+            key_str = self._write_key(item_key, len(key), 'assignment', inline=True)
+            if item_key not in self.style.keys and not is_first:
+                key_str = f" {key_str}"
 
-            if isinstance(item, Mapping) and item_style.display == 'dotted':
-                return value_str
-            return f"{key_str}={value_str}"
+            return f"{key_str}={self._write_value(item, item_key, item_style)}"
 
-        result += '\n'.join(_write_assignment(k, v) for k, v in data.items())
-        result += '\n'
-        result += vstyle.epilog
+        result += ','.join(_write_assignment(k, v, i == 0) for i, (k, v) in enumerate(data.items()))
+        result += f"}}{vstyle.epilog}"
         return result
 
     def _write_table_list(self, data: List[Mapping[str, Any]], key: KEY_T, vstyle: _ValueStyle) -> str:
@@ -418,18 +399,26 @@ class _Writer:
 
 class _TomlParser(SimpleParser):
     def __init__(self, text: str, file_name: Optional[str]):
-        super().__init__(text, file_name)
+        super().__init__(text.replace('\r\n', '\n'), file_name)
         self.style = _StyleSheet()
 
+        # how each of the containers was defined (by its id), to detect illegal redefinitions
+        self._definitions: Dict[int, str] = {}
+
+    def match_ws(self, allow_new_lines: bool = True) -> str:
+        p = self.position
+        self.position = (_WS_RX if allow_new_lines else _INLINE_WS_RX).match(self.text, p).end()
+        return self.text[p:self.position]
+
     def read_non_data(self, allow_new_lines: bool = True) -> str:
         result = ''
         while self.is_not_empty():
             result += self.match_ws(allow_new_lines)
-            n = self.peek()
-            if n == '#':  # comment
-                result += self.until(lambda i, t: t[i] == '\n')
-            else:
+            comment = _COMMENT_RX.match(self.text, self.position)
+            if not comment:
                 break
+            result += comment.group()
+            self.position = comment.end()
 
         return result
 
@@ -485,69 +474,28 @@ class _TomlParser(SimpleParser):
         return value
 
     def read_bare_key(self) -> str:
-        result = ''
-        while self.is_not_empty():
-            n = self.peek()
-            if _KEY_RX.match(n):
-                result += self.next()
-            else:
-                break
-
-        return result
-
-    def read_key(self, base_key: KEY_T = ()) -> KEY_T:
-        prolog = self.read_non_data()
-        p = self.position
-        table_key = self.match('[')
-        table_list_key = False
-
-        if table_key:
-            self.match_ws(False)
-            table_list_key = self.match('[')
+        if not (match := _KEY_RX.match(self.text, self.position)):
+            self.raise_err('non-key character')
+        self.position = match.end()
+        return match.group()
 
+    def read_key(self) -> KEY_T:
         parts = []
-        while self.is_not_empty():
+        while True:
             self.match_ws(False)
             n = self.peek()
-            if n in '"\'':
-                parts.append(self.read_str())
-            elif _KEY_RX.fullmatch(n):
-                parts.append(self.read_bare_key())
+            if n == '"':
+                parts.append(self.read_basic_str())
+            elif n == "'":
+                parts.append(self.read_literal_str())
             else:
-                self.raise_err('non-key character')
+                parts.append(self.read_bare_key())
 
-            pp = self.position
+            p = self.position
             self.match_ws(False)
             if not self.match('.'):
-                self.position = pp
-                break
-
-        key = tuple(parts)
-
-        if table_key:
-            self.match_or_err(']', 'expecting table key termination')
-
-        if table_list_key:
-            self.match_ws()
-            self.match_or_err(']', 'expecting table list key termination')
-            key = self.style.lastify(key)
-
-        key_str = self.text[p:self.position]
-        epilog = self.read_non_data(False)
-        display = 'assignment'
-        if table_key:
-            display = 'table'
-        if table_list_key:
-            display = 'table-array-item'
-
-        self.style.set_key_style((*base_key, *key),
-                                 _KeyStyle(prolog=prolog, epilog=epilog, key_str=key_str, display=display))
-        return key
-
-    def _mark_internal_tables(self, table_key: KEY_T, key: KEY_T, display: str):
-        for i in range(1, len(key) + 1):
-            dtable_key = (*table_key, *key[0:i])
-            self.style.update_value_auto_display(dtable_key, {}, display)
+                self.position = p
+                return tuple(parts)
 
     def read_number_or_date(self) -> Union[Number, TimeLiteral]:
         if match := _DATE_RX.match(self.text, self.position):
@@ -580,51 +528,49 @@ class _TomlParser(SimpleParser):
             return False
         self.raise_err("boolean expected")
 
-    def read_inline_list(self, key: KEY_T) -> List[Any]:
-        prolog = self.read_non_data(False)
+    def read_inline_list(self, key: KEY_T) -> Tuple[List[Any], str]:
         self.match_or_err('[', 'expecting list start')
         result = []
         p = self.position
-        content_trailing = None
 
-        while self.is_not_empty():
+        while True:
             item_prolog = self.read_non_data()
 
             if self.match(']'):
-                self.position -= 1
-                content_trailing = self.text[p:self.position]
-                break
+                return result, self.text[p:self.position - 1]
 
             item_key = (*key, len(result))
-            next_ = self.read_inline_value(item_key)
-            item_style = self.style.value_style(item_key, next_)
+            item, item_style = self.read_inline_value(item_key)
             item_style.prolog = item_prolog
             item_style.epilog = self.read_non_data()
-            result.append(next_)
+            self.style.set_value_style(item_key, item, item_style)
+            result.append(item)
 
             p = self.position
-            if not self.match(', ') and not self.match(','):
-                break
-
-        content_trailing = content_trailing or self.read_non_data()
-        self.match_or_err(']', 'expecting list end')
-        epilog = self.read_non_data(False)
-        self.style.set_value_style(key, result, _ValueStyle(prolog=prolog, epilog=epilog, display='inline',
-                                                            content_trailing=content_trailing))
-        return result
+            if not self.match(','):
+                self.match_or_err(']', 'expecting list end')
+                return result, ''
 
     def read_inline_table(self, key: KEY_T) -> Dict[str, Any]:
-        prolog = self.read_non_data(False)
         self.match_or_err('{', 'expecting inline-table start')
-        result = self.read_table_assignments(key, inline=True)
+        result = {}
+
+        p = self.position
+        self.match_ws(False)
+        if self.match('}'):
+            return result
+
+        self.position = p
+        while True:
+            self.read_assignment(result, key, inline=True)
+            if not self.match(','):
+                break
+
         self.match_or_err('}', 'expecting inline-table end')
-        epilog = self.read_non_data(False)
-        self.style.set_value_style(key, result, _ValueStyle(prolog=prolog, epilog=epilog, display='inline'))
         return result
 
-    def read_inline_value(self, key: KEY_T) -> Any:
-        prolog = self.read_non_data()
-        value_str = None
+    def read_inline_value(self, key: KEY_T) -> Tuple[Any, _ValueStyle]:
+        vstyle = _ValueStyle(display='inline')
 
         p = self.position
         n = self.peek()
@@ -633,59 +579,65 @@ class _TomlParser(SimpleParser):
             self.raise_err("value expected")
         elif n in "+-in" or n.isnumeric():  # "inf" and "nan" are numbers
             result = self.read_number_or_date()
-            value_str = self.text[p:self.position]
         elif n in '\'"':
             result = self.read_str()
-            value_str = self.text[p:self.position]
         elif n in 'tf':
             result = self.read_bool()
-            value_str = self.text[p:self.position]
         elif n == '[':
-            result = self.read_inline_list(key)
+            result, vstyle.content_trailing = self.read_inline_list(key)
         elif n == '{':
             result = self.read_inline_table(key)
 
         if result is None:
             self.raise_err("value expected")
 
-        vstyle = self.style.value_style(key, result)
-        vstyle.prolog = prolog
-        vstyle.epilog = self.read_non_data(False)
-        vstyle.value_str = value_str
-        vstyle.display = 'inline'
-        self.style.set_value_style(key, result, vstyle)
+        if not isinstance(result, (List, Mapping)):
+            vstyle.value_str = self.text[p:self.position]
 
-        return result
-
-    def _enter(self, data: Any, key: KEY_T, value: Any):
-        if not key:
-            return data
+        return result, vstyle
 
-        if isinstance(data, List):
-            if len(key) == 1 and isinstance(key[0], Number):
-                data.append(value)
-                return
+    def read_assignment(self, table: Dict[str, Any], table_key: KEY_T, inline: bool = False):
+        key_prolog = self.match_ws(False) if inline else self.read_non_data()
+        p = self.position
+        key = self.read_key()
+        key_str = self.text[p:self.position]
+        key_epilog = self.match_ws(False)
+        self.style.set_key_style(
+            (*table_key, *key), _KeyStyle(
+                prolog=key_prolog, epilog=key_epilog, key_str=key_str, key_offset=len(table_key), display='assignment'))
+
+        self.match_or_err('=', 'expecting assignment')
+        prolog = self.match_ws(False)
+        value_key = (*table_key, *key)
+        value, vstyle = self.read_inline_value(value_key)
+        vstyle.prolog = prolog
+        vstyle.epilog = self.match_ws(False) if inline else self.read_non_data(False)
 
-            return self._enter(data[-1], key, value)
+        for part in key[:-1]:
+            table_key = (*table_key, part)
+            if part not in table:
+                table[part] = {}
+                self._definitions[id(table[part])] = 'implicit'
 
-        if isinstance(data, MutableMapping):
-            if len(key) == 1:
-                data[key[0]] = value
-                return
+            subtable = table[part]
+            definition = self._definitions.get(id(subtable))
+            if definition == 'implicit':
+                self._definitions[id(subtable)] = 'dotted'
+                self.style.set_value_style(table_key, subtable, _ValueStyle(display='dotted'))
+            elif definition != 'dotted':
+                self.raise_err(f"key already defined: {part}")
 
-            if key[0] not in data:
-                if isinstance(key[1], Number):
-                    data[key[0]] = []
-                else:
-                    data[key[0]] = {}
+            table = subtable
 
-            return self._enter(data[key[0]], key[1:], value)
+        if key[-1] in table:
+            self.raise_err(f"key already defined: {key[-1]}")
 
-        raise ValueError(f"cannot enter {data}")
+        table[key[-1]] = value
+        self.style.set_value_style(value_key, value, vstyle)
 
-    def read_table_assignments(self, table_key: KEY_T, inline: bool = False) -> Dict[str, Any]:
-        data = {}
-        while self.is_not_empty():
+    def read_table_assignments(self, table: Dict[str, Any], table_key: KEY_T):
+        has_assignments = False
+        while True:
             p = self.position
             self.read_non_data()
             key_start = self.peek()
@@ -693,59 +645,100 @@ class _TomlParser(SimpleParser):
             if not key_start or key_start == '[':
                 break
 
-            k = self.read_key(base_key=table_key)
-            self.match_or_err('=', 'expecting assignment')
-            v = self.read_inline_value((*table_key, *k))
-            self._enter(data, k, v)
-            if len(k) > 1:
-                self._mark_internal_tables(table_key, k[:-1], 'dotted')
+            self.read_assignment(table, table_key)
+            has_assignments = True
+            if self.is_not_empty():
+                self.match_or_err('\n', 'expecting newline after assignment')
 
-            if inline and not self.match(', ') and not self.match(','):
-                break
-            if not inline and not self.match('\n'):
-                break
+        if has_assignments:
+            self.match('\n')  # drop last \n seperating assignments and next table - it is added implicitly
+
+    def _open_table(self, root: Dict[str, Any], key: KEY_T, array_item: bool) -> Tuple[Dict[str, Any], KEY_T]:
+        table, table_key = root, ()
+
+        for part in key[:-1]:
+            table_key = (*table_key, part)
+            if part not in table:
+                table[part] = subtable = {}
+                self._definitions[id(subtable)] = 'implicit'
+                self.style.set_value_style(table_key, subtable, _ValueStyle(display='hidden'))
+
+            table = table[part]
+            definition = self._definitions.get(id(table))
+            if definition == 'table-array':
+                table_key = (*table_key, len(table) - 1)
+                table = table[-1]
+            elif not definition:
+                self.raise_err(f"key already defined: {part}")
+
+        part = key[-1]
+        table_key = (*table_key, part)
+        result = {}
+        if array_item:
+            if part not in table:
+                table[part] = array = []
+                self._definitions[id(array)] = 'table-array'
+            elif self._definitions.get(id(table[part])) != 'table-array':
+                self.raise_err(f"key already defined: {part}")
+
+            table_key = (*table_key, len(table[part]))
+            table[part].append(result)
+        elif part not in table:
+            table[part] = result
+        elif self._definitions.get(id(table[part])) == 'implicit':
+            result = table[part]
+        else:
+            self.raise_err(f"key already defined: {part}")
 
-        self.match('\n')  # drop last \n seperating assignments and next table - it is added implicitly
-        return data
+        self._definitions[id(result)] = 'regular'
+        return result, table_key
 
-    def read_regular_table(self) -> Tuple[KEY_T, Dict[str, Any]]:
+    def read_regular_table(self, root: Dict[str, Any]):
         prolog = self.read_non_data()
-        key = self.read_key()
-        self._mark_internal_tables((), key[:-1], 'hidden')
 
-        if self.is_empty():
-            data = {}
-        else:
+        p = self.position
+        array_item = bool(self.match('[['))
+        if not array_item:
+            self.match_or_err('[', 'expecting table')
+        key = self.read_key()
+        self.match_ws(False)
+        self.match_or_err(']]' if array_item else ']', 'expecting table key termination')
+        key_str = self.text[p:self.position]
+        epilog = self.read_non_data(False)
+        if self.is_not_empty():
             self.match_or_err('\n', 'expecting newline after table key')
-            data = self.read_table_assignments(key)
 
-        if key[-1] == -1:
-            key = (*key[:-1], id(data))
-        self.style.set_value_style(key, data, _ValueStyle(prolog=prolog, display='regular'))
-        return key, data
+        table, table_key = self._open_table(root, key, array_item)
+        self.style.set_key_style(table_key, _KeyStyle(
+            epilog=epilog, key_str=key_str, display='table-array-item' if array_item else 'table'))
+        self.style.set_value_style(
+            table_key, table, _ValueStyle(prolog=prolog, display='table-array-item' if array_item else 'regular'))
+
+        self.read_table_assignments(table, table_key)
 
     def read(self) -> Dict[str, Any]:
         prolog = self.read_non_data()
-        epilog = ''
-        data = self.read_table_assignments(())
+        if prolog and not prolog.endswith('\n'):
+            prolog += '\n'
 
-        while self.is_not_empty():
+        data = {}
+        self.read_table_assignments(data, ())
+
+        while True:
             p = self.position
             epilog = self.read_non_data()
-            if self.is_not_empty():
-                self.position = p
-                epilog = ''
-                key, value = self.read_regular_table()
-                self._enter(data, key, value)
-            else:
+            if self.is_empty():
                 break
 
+            self.position = p
+            self.read_regular_table(data)
+
         self.style.set_value_style((), data, _ValueStyle(prolog=prolog, epilog=epilog, display='regular'))
         return data
 
 
 def key2path(key: str) -> KEY_T:
-    return _TomlParser(key, None).read_key(())
+    return _TomlParser(key, None).read_key()
 
 
 def loads(data: str, file_name: Optional[str] = None) -> Tuple[Dict[str, Any], DUMPS_T]:
-- 
2.43.0


From 9afb9d19d43c629c5586057d06fd8167d66d57cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 053/122] fix: a failed copy transaction restores every
 overwritten, removed and created path

---
 pkm/src/pkm/utils/files.py | 59 ++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index cef9a65..4fa5cb0 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -5,7 +5,7 @@ import shutil
 from contextlib import contextmanager
 from pathlib import Path
 from tempfile import mkdtemp
-from typing import Optional, Callable, ContextManager, Iterator, List, Set
+from typing import Optional, Callable, ContextManager, Iterator, List, Set, Tuple
 
 from pkm.utils.commons import UnsupportedOperationException
 
@@ -126,7 +126,8 @@ class CopyTransaction:
 
     def __init__(self):
         self._copied_files: Set[Path] = set()
-        self._overwritten_files: List[Path] = []  # source overwrite, temp location
+        # the performed changes by their order: a path with the temp location it was moved to, None if it was created
+        self._changes: List[Tuple[Path, Optional[Path]]] = []
         self._temp_dir: Optional[Path] = None
 
     def copy_tree(self, source: Path, target: Path,
@@ -143,8 +144,10 @@ class CopyTransaction:
 
         if file_copy:
             def cp(s, d):
-                file_copy(s, d)
+                if os.path.lexists(d):
+                    self.rm(d)
                 self.touch(d)
+                file_copy(s, d)
         else:
             cp = self.copy
 
@@ -154,7 +157,7 @@ class CopyTransaction:
                 continue
 
             if file.is_dir():
-                self.copy_tree(file, target / file.name, accept)
+                self.copy_tree(file, target / file.name, accept, file_copy)
             else:
                 cp(file, target / file.name)
 
@@ -168,7 +171,7 @@ class CopyTransaction:
             if not target.parent.exists():
                 self.mkdir(target.parent)
             target.mkdir()
-            self._copied_files.add(target)
+            self.touch(target)
 
         return target
 
@@ -181,19 +184,12 @@ class CopyTransaction:
         if source.is_dir():
             raise UnsupportedOperationException("copy should not work with directories, use copy_tree or mkdir instead")
 
-        if target.exists():
+        if os.path.lexists(target):
             self.rm(target)
 
-        try:
-            shutil.copy(source, target)
-        except FileNotFoundError:
-            if not target.exists():
-                self.mkdir(target.parent)
-                shutil.copy(source, target)
-            else:
-                raise
-
-        self._copied_files.add(target)
+        self.mkdir(target.parent)
+        self.touch(target)
+        shutil.copy(source, target)
 
     @property
     def copied_files(self) -> Iterator[Path]:
@@ -207,7 +203,8 @@ class CopyTransaction:
         mark the given `paths` as copied in this transaction
         :param paths: list of path to mark
         """
-        self._copied_files.update(paths)
+        for path in paths:
+            self.touch(path)
 
     def touch(self, path: Path, fs_touch: bool = False):
         """
@@ -216,6 +213,7 @@ class CopyTransaction:
         :param fs_touch: if true will also touch the path in the filesystem
         """
         self._copied_files.add(path)
+        self._changes.append((path, None))
         if fs_touch:
             path.touch(exist_ok=True)
 
@@ -225,7 +223,7 @@ class CopyTransaction:
         :param path: the path to mark
         """
         self.touch(path)
-        self._copied_files.update(path.rglob("*"))
+        self.touch_all(list(path.rglob("*")))
 
     def rm(self, path: Path):
         """
@@ -233,9 +231,10 @@ class CopyTransaction:
         works for both files and directories
         :param path: the path to remove
         """
-        temp = self._temp_dir / str(len(self._overwritten_files))
+        temp = self._temp_dir / str(len(self._changes))
         shutil.move(path, temp)
-        self._overwritten_files.append(path)
+        self._changes.append((path, temp))
+        self._copied_files = {it for it in self._copied_files if it != path and path not in it.parents}
 
     def __enter__(self) -> CopyTransaction:
         self._temp_dir = Path(mkdtemp())
@@ -254,17 +253,15 @@ class CopyTransaction:
         self._temp_dir = None
 
     def _rollback(self):
-        for file in self._copied_files:
-            if not file.is_dir():
-                file.unlink(missing_ok=True)
-
-        for file in self._copied_files:
-            if file.is_dir() and is_empty_directory(file):
-                file.rmdir()
-
-        for i, path in enumerate(self._overwritten_files):
-            restore_path = self._temp_dir / str(i)
-            shutil.move(restore_path, path)
+        for path, moved_to in reversed(self._changes):
+            if moved_to:
+                shutil.move(moved_to, path)
+            elif path.is_dir() and not path.is_symlink():
+                # children are usually removed before, those that were not are not part of this transaction
+                if is_empty_directory(path):
+                    path.rmdir()
+            elif os.path.lexists(path):
+                path.unlink()
 
         self._commit()
 
-- 
2.43.0


From 634be0df08a058277fa31c14cfe2c9898a4f404e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 054/122] fix: entry point names may hold colons, values may
 hold percent signs, and the wheel purelib flag is read in any case

---
 pkm/src/pkm/config/configfiles.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index 7682f8d..fdfe30a 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -37,6 +37,9 @@ class JsonConfigIO(ConfigIO):
 class _CaseSensitiveConfigParser(configparser.ConfigParser):
     optionxform = staticmethod(str)
 
+    def __init__(self):
+        super().__init__(delimiters=('=',), interpolation=None)
+
 
 class INIConfigIO(ConfigIO):
     def write(self, path: Path, data: _RAW_CONFIG_T):
@@ -56,7 +59,7 @@ class INIConfigIO(ConfigIO):
     def read(self, path: Path) -> _RAW_CONFIG_T:
         data = {}
         cp = _CaseSensitiveConfigParser()
-        cp.read(str(path))
+        cp.read(str(path), encoding='utf-8')
         for section_name, section_values in cp.items():
             if section_name and section_name != cp.default_section:
                 data[section_name] = {**section_values}
@@ -69,7 +72,7 @@ class INIConfigIO(ConfigIO):
 class _WheelBoolFieldCodec(ConfigFieldCodec):
 
     def parse(self, parent: ConfigCodec, type_: Type, v: Any) -> _T:
-        return v == 'true'
+        return v.lower() == 'true'
 
     def unparse(self, parent: ConfigCodec, type_: Type, v: _T) -> Any:
         return 'true' if v else 'false'
-- 
2.43.0


From 1e804627ac3feb26e48c857e2a51b16498fe463a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 055/122] fix: wheel headers, record, bookkeeping files and
 windowed scripts are installed as the wheel format says, within the copy
 transaction

---
 .../api/distributions/wheel_distribution.py   | 77 ++++++++++++-------
 pkm/src/pkm/launchers/executables.py          | 10 ++-
 pkm/src/pkm/utils/files.py                    | 16 ++--
 3 files changed, 66 insertions(+), 37 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index b42c0ed..8798cd9 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -18,7 +18,8 @@ from pkm.api.versions.version import StandardVersion
 from pkm.api.versions.version_specifiers import StandardVersionRange
 from pkm.launchers.executables import Executables
 from pkm.utils.archives import extract_archive
-from pkm.utils.files import path_to, CopyTransaction, temp_dir, is_empty_directory
+from pkm.utils.files import CopyTransaction, temp_dir, is_empty_directory
+from pkm.utils.hashes import HashSignature
 
 _METADATA_FILE_RX = re.compile("[^/]*\\.dist-info/METADATA")
 
@@ -99,17 +100,24 @@ class WheelDistribution(Distribution):
         _remove_empty_directories(content)
 
         records_file: RecordsFileConfiguration = dist_info.load_record_cfg()
+        verified_hashes: Dict[str, HashSignature] = {}
         if not skip_record_verification:
-            _verify_records(dist_info, content, records_file)
+            verified_hashes = _verify_records(dist_info, content, records_file)
 
         data_dir = dist_info.path.with_suffix(".data")
 
+        # files that are written by the installer, not copied from the wheel
+        installer_files = {dist_info.path / name for name in ("RECORD", "INSTALLER", "REQUESTED", "INSTALLATION_MODE")}
+
         with CopyTransaction() as ct:
             for d in content.iterdir():
                 if d.is_dir():
                     if d == data_dir:
                         for k in d.iterdir():
-                            target_path = getattr(target, k.name) or Path(target.data, k.name)
+                            if k.name == 'headers':
+                                target_path = Path(target.include, package.name)
+                            else:
+                                target_path = getattr(target, k.name, None) or Path(target.data, k.name)
                             if k.name == 'scripts':
                                 ct.copy_tree(
                                     k, Path(target_path),
@@ -118,7 +126,7 @@ class WheelDistribution(Distribution):
                             else:
                                 ct.copy_tree(k, Path(target_path))
                     else:
-                        ct.copy_tree(d, site_packages / d.name, accept=lambda it: it != records_file.path)
+                        ct.copy_tree(d, site_packages / d.name, accept=lambda it: it not in installer_files)
                 else:
                     ct.copy(d, site_packages / d.name)
 
@@ -126,37 +134,34 @@ class WheelDistribution(Distribution):
             scripts_path = Path(target.scripts)
             for entrypoint in entrypoints:
                 if entrypoint.is_script():
-                    ct.touch(Executables.generate_for_entrypoint(target.env, entrypoint, scripts_path))
+                    with temp_dir() as executables_path:
+                        executable = Executables.generate_for_entrypoint(target.env, entrypoint, executables_path)
+                        ct.copy(executable, scripts_path / executable.name)
 
             #  compile py to pyc
-            new_pyc_files: List[str] = []
             with warnings.catch_warnings():
                 warnings.filterwarnings('ignore')
-                for cc in ct.copied_files:
+                for cc in list(ct.copied_files):
                     if cc.suffix == '.py':
+                        # the compiled files are part of the transaction, so that they will be added to record
+                        ct.overwrite(Path(importlib.util.cache_from_source(str(cc))))
                         compileall.compile_file(cc, force=True, quiet=2)
-                        new_pyc_files.append(importlib.util.cache_from_source(str(cc)))
-
-            # mark the compiled files in the transaction, so that they will be added to record
-            for npf in new_pyc_files:
-                ct.touch(Path(npf))
 
             # build the new records file
             new_dist_info = DistInfo.load(site_packages / dist_info.path.name)
+            installed_files = [file for file in ct.copied_files if file.exists()]
+            ct.overwrite(new_dist_info.record_path())
             new_record_file = new_dist_info.load_record_cfg()
-
-            precomputed_hashes = {
-                r.file: r.hash_signature for r in records_file.records if r.hash_signature
-            } if not skip_record_verification else None
-            new_record_file.sign_files(ct.copied_files, site_packages, precomputed_hashes)
-
+            new_record_file.sign_files(installed_files, site_packages, verified_hashes)
             new_record_file.save()
 
             # and finally, mark the installer and the requested flag
-            (new_dist_info.path / "INSTALLER").write_text(f"pkm")
+            ct.overwrite(new_dist_info.path / "INSTALLER").write_text(f"pkm")
             if user_request:
+                ct.overwrite(new_dist_info.user_requested_path())
                 new_dist_info.mark_as_user_requested(user_request)
             if installation_info:
+                ct.overwrite(new_dist_info.installation_info_path())
                 new_dist_info.save_installation_info(installation_info)
 
     def install_to(self, target: "PackageInstallationTarget", user_request: Optional[Dependency] = None,
@@ -195,26 +200,40 @@ def _remove_empty_directories(content: Path):
         d.rmdir()
 
 
-def _verify_records(dist_info: DistInfo, content: Path, records_file: RecordsFileConfiguration):
+def _verify_records(
+        dist_info: DistInfo, content: Path, records_file: RecordsFileConfiguration) -> Dict[str, HashSignature]:
     if not records_file.path.exists():
         raise InstallationException(
             f"Unsigned wheel for package {dist_info.package_name_by_dirname} (no RECORD file found in dist-info)")
 
     # check that the records hash match
+    verified_hashes: Dict[str, HashSignature] = {}
     record_by_path: Dict[str, Record] = {r.file: r for r in records_file.records}
     for file in content.rglob("*"):
-        if file.is_dir():
+        if file.is_dir() or file in (records_file.path, *_record_signatures(dist_info)):
             continue
 
-        path = str(path_to(content, file))
+        path = file.relative_to(content).as_posix()
         if (record := record_by_path.get(path)) and record.hash_signature:
-            if not record.hash_signature.validate_against(file):
-                if any(it.name.endswith('.dist-info') for it in file.parents):
-                    warnings.warn(f"mismatch hash signature for {file}")
-                else:
-                    raise InstallationException(f"File signature not matched for: {record.file}")
-
-        elif file != dist_info.path / "RECORD":
+            if record.hash_signature.validate_against(file):
+                verified_hashes[path] = record.hash_signature
+            elif dist_info.path in file.parents:
+                warnings.warn(f"mismatch hash signature for {file}")
+            else:
+                raise InstallationException(f"File signature not matched for: {record.file}")
+        else:
             raise InstallationException(
                 f"Wheel contains files with no signature in RECORD, "
                 f"e.g., {path}")
+
+    # check that no recorded file is missing
+    for path in record_by_path:
+        if not (content / path).is_file():
+            raise InstallationException(f"Wheel does not contain a file that is listed in its RECORD: {path}")
+
+    return verified_hashes
+
+
+def _record_signatures(dist_info: DistInfo) -> List[Path]:
+    # signatures of the RECORD file itself, by PEP427 these are not listed in it
+    return [dist_info.path / "RECORD.jws", dist_info.path / "RECORD.p7s"]
diff --git a/pkm/src/pkm/launchers/executables.py b/pkm/src/pkm/launchers/executables.py
index c04d77c..9de070e 100644
--- a/pkm/src/pkm/launchers/executables.py
+++ b/pkm/src/pkm/launchers/executables.py
@@ -25,9 +25,13 @@ class Executables:
         with source.open('rb') as script_fd, target.open('wb+') as target_fd:
             first_line = script_fd.readline()
             if first_line.startswith(b"#!python"):
-                w = 'w' if first_line.startswith(b"#!pythonw") else ''
-                target_fd.write(
-                    f"#!{interpreter_path.absolute()}{w}{os.linesep}".encode(sys.getfilesystemencoding()))
+                if first_line.startswith(b"#!pythonw"):
+                    # the windowed interpreter does not exist in all platforms
+                    windowed_path = interpreter_path.with_name(f"{interpreter_path.stem}w{interpreter_path.suffix}")
+                    if windowed_path.exists():
+                        interpreter_path = windowed_path
+
+                target_fd.write(f"#!{interpreter_path.absolute()}{os.linesep}".encode(sys.getfilesystemencoding()))
             else:
                 target_fd.write(first_line)
 
diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index 4fa5cb0..aa1aaec 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -144,10 +144,7 @@ class CopyTransaction:
 
         if file_copy:
             def cp(s, d):
-                if os.path.lexists(d):
-                    self.rm(d)
-                self.touch(d)
-                file_copy(s, d)
+                file_copy(s, self.overwrite(d))
         else:
             cp = self.copy
 
@@ -184,12 +181,21 @@ class CopyTransaction:
         if source.is_dir():
             raise UnsupportedOperationException("copy should not work with directories, use copy_tree or mkdir instead")
 
+        shutil.copy(source, self.overwrite(target))
+
+    def overwrite(self, target: Path) -> Path:
+        """
+        prepares for writing a new file in the given `target` path (rollback supported operation):
+        removes what the path holds, creates its parent directories and marks it as copied in this transaction
+        :param target: the path that is about to be written
+        :return `target` to be used with chaining
+        """
         if os.path.lexists(target):
             self.rm(target)
 
         self.mkdir(target.parent)
         self.touch(target)
-        shutil.copy(source, target)
+        return target
 
     @property
     def copied_files(self) -> Iterator[Path]:
-- 
2.43.0


From 00de2a283ab4c3b3281fdce37b0f3054c9527559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 056/122] fix: a wheel without metadata, for another package or
 version, of an unknown wheel version, or with script names that lead
 elsewhere is refused

---
 pkm/src/pkm/api/distributions/distinfo.py       |  8 ++++----
 .../pkm/api/distributions/wheel_distribution.py | 17 +++++++++++++++++
 pkm/src/pkm/launchers/executables.py            |  3 +++
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/distinfo.py b/pkm/src/pkm/api/distributions/distinfo.py
index df9e68a..fce6aee 100644
--- a/pkm/src/pkm/api/distributions/distinfo.py
+++ b/pkm/src/pkm/api/distributions/distinfo.py
@@ -50,7 +50,7 @@ class DistInfo(Serializable):
         :return: the package name as can be computed from the dist-info file name. note that if the loaded dist-info
          path has non-standard, the return value of this method is undetermined
         """
-        return Version.parse(self.path.name.split("-")[1])
+        return Version.parse(self.path.name[:-len(".dist-info")].split("-", 1)[1])
 
     def load_wheel_cfg(self) -> "WheelFileConfiguration":
         """
@@ -233,7 +233,7 @@ class EntrypointsConfiguration(ConfigFile):
 @dataclass
 @config(io=WheelFileConfigIO())
 class WheelFileConfiguration(ConfigFile):
-    version: Version = config_field(key='Wheel-Version', default=Version.parse("1.0"))
+    version: Version = config_field(key='Wheel-Version')
     generator: str = config_field(key="Generator", default="")
     root_is_purelib: bool = config_field(key="Root-Is-Purelib", default=True)
     _leftovers = config_field(leftover=True)
@@ -242,9 +242,9 @@ class WheelFileConfiguration(ConfigFile):
         if not isinstance(self.version, StandardVersion):
             raise UnsupportedOperationException(f"unknown wheel version: {self.version}")
 
-        if self.version.release[0] != 1:
+        if self.version.epoch or self.version.release[0] != 1:
             raise UnsupportedOperationException(f"unsupported wheel version: {self.version}")
-        if self.version.release[1] != 0:
+        if any(self.version.release[1:]):
             print(f'advanced wheel version: {self.version} detected, will be treated as version 1.0')
 
     @classmethod
diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index 8798cd9..abbf617 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -89,6 +89,7 @@ class WheelDistribution(Distribution):
             skip_record_verification: bool = False):
 
         dist_info = _find_dist_info(content, package)
+        _verify_dist_info(dist_info, package)
 
         wheel_file = dist_info.load_wheel_cfg()
         wheel_file.validate_supported_version()
@@ -194,6 +195,22 @@ def _find_dist_info(unpacked_wheel: Path, package: PackageDescriptor) -> DistInf
     return DistInfo.load(dist_info[0])
 
 
+def _verify_dist_info(dist_info: DistInfo, package: PackageDescriptor):
+    for required_file in (dist_info.wheel_path(), dist_info.metadata_path()):
+        if not required_file.is_file():
+            raise InstallationException(f"malformed wheel for {package}: it does not contain {required_file.name}")
+
+    metadata = dist_info.load_metadata_cfg()
+    if not metadata.package_name or not metadata.package_version:
+        raise InstallationException(f"malformed wheel for {package}: no name or version in its METADATA")
+
+    for described in (
+            PackageDescriptor(metadata.package_name, metadata.package_version),
+            PackageDescriptor(dist_info.package_name_by_dirname, dist_info.package_version_by_dirname)):
+        if described.name_key != package.name_key or described.version != package.version:
+            raise InstallationException(f"expecting a wheel for {package}, but the given wheel is for {described}")
+
+
 def _remove_empty_directories(content: Path):
     to_del = [d for d in content.glob("**/") if is_empty_directory(d)]
     for d in to_del:
diff --git a/pkm/src/pkm/launchers/executables.py b/pkm/src/pkm/launchers/executables.py
index 9de070e..904ad1b 100644
--- a/pkm/src/pkm/launchers/executables.py
+++ b/pkm/src/pkm/launchers/executables.py
@@ -51,6 +51,9 @@ class Executables:
         :param is_gui: if True, and in windows platform, will create a "gui" script, defaults to False.
         :return: path to the created executable
         """
+        if file_name in ('', '.', '..') or '/' in file_name or '\\' in file_name:
+            raise ValueError(f"illegal script name: '{file_name}'")
+
         target_dir.mkdir(exist_ok=True, parents=True)
         if env.operating_platform.has_windows_os():
             return build_windows_script_launcher(env, target_dir, file_name, script, is_gui)
-- 
2.43.0


From bcfad4e381298e447ee963e7e19f21a61b2d9935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 057/122] fix: uninstalling removes a package's own files and
 the directories they leave empty, nothing of other packages or outside of the
 environment, and a failed update restores the previous version

---
 pkm/src/pkm/api/distributions/distinfo.py     |  5 +-
 .../api/distributions/wheel_distribution.py   |  2 +-
 pkm/src/pkm/api/packages/package.py           | 14 +++-
 pkm/src/pkm/api/packages/site_packages.py     | 75 ++++++++++++++-----
 4 files changed, 69 insertions(+), 27 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/distinfo.py b/pkm/src/pkm/api/distributions/distinfo.py
index fce6aee..c0fa361 100644
--- a/pkm/src/pkm/api/distributions/distinfo.py
+++ b/pkm/src/pkm/api/distributions/distinfo.py
@@ -201,8 +201,9 @@ class DistInfo(Serializable):
         """
         root = self.path.parent
         for record in self.load_record_cfg().records:
-            file = Path(root, record.file).resolve()
-            yield file
+            file = Path(root, record.file)
+            # symbolic links are yield by themselves, not the files that they lead to
+            yield file.parent.resolve() / file.name if file.name != '..' else file.resolve()
 
         yield self.record_path()
 
diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index abbf617..ab40e16 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -143,7 +143,7 @@ class WheelDistribution(Distribution):
             with warnings.catch_warnings():
                 warnings.filterwarnings('ignore')
                 for cc in list(ct.copied_files):
-                    if cc.suffix == '.py':
+                    if cc.suffix == '.py' and cc.is_file():
                         # the compiled files are part of the transaction, so that they will be added to record
                         ct.overwrite(Path(importlib.util.cache_from_source(str(cc))))
                         compileall.compile_file(cc, force=True, quiet=2)
diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index 8d1a71a..8c25822 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -9,6 +9,7 @@ from pkm.api.packages.package_installation_info import StoreMode
 from pkm.api.versions.version import Version, StandardVersion
 from pkm.api.versions.version_specifiers import VersionMatch, StandardVersionRange
 from pkm.utils.commons import UnsupportedOperationException
+from pkm.utils.files import CopyTransaction
 from pkm.utils.properties import cached_property
 from pkm.utils.strings import endswith_any
 
@@ -198,11 +199,16 @@ class Package(ABC):
         :param store_mode: decide the way the package is stored in the site
                (editable = by reference, copy, auto = editable if package installed from source otherwise false)
         """
-        if preinstalled := target.site_packages.installed_package(self.name):
-            user_request = user_request or preinstalled.user_request
-            preinstalled.uninstall()
+        try:
+            with CopyTransaction() as transaction:
+                # if the installation fails the preinstalled version is restored
+                if preinstalled := target.site_packages.installed_package(self.name):
+                    user_request = user_request or preinstalled.user_request
+                    preinstalled.uninstall(transaction)
 
-        self.install_to(target, user_request, store_mode=store_mode)
+                self.install_to(target, user_request, store_mode=store_mode)
+        finally:
+            target.site_packages.reload()
 
     def __str__(self):
         return f"{self.name} {self.version}"
diff --git a/pkm/src/pkm/api/packages/site_packages.py b/pkm/src/pkm/api/packages/site_packages.py
index 47ac6a5..9951e30 100644
--- a/pkm/src/pkm/api/packages/site_packages.py
+++ b/pkm/src/pkm/api/packages/site_packages.py
@@ -1,6 +1,8 @@
 from __future__ import annotations
 
-import shutil
+import os
+import re
+import warnings
 from pathlib import Path
 from typing import Optional, List, Dict, Iterable, TYPE_CHECKING, Iterator
 
@@ -11,7 +13,7 @@ from pkm.api.packages.package_installation_info import StoreMode, PackageInstall
 from pkm.api.packages.package_metadata import PackageMetadata
 from pkm.api.versions.version_specifiers import VersionMatch
 from pkm.utils.dicts import put_if_absent
-from pkm.utils.files import is_empty_directory, is_relative_to
+from pkm.utils.files import CopyTransaction, is_empty_directory, is_relative_to
 from pkm.utils.types import Serializable
 from pkm.utils.properties import cached_property, clear_cached_properties
 from pkm.utils.sequences import pop_or_none
@@ -205,32 +207,65 @@ class InstalledPackage(Package, Serializable):
         else:
             self.dist_info.unmark_as_user_requested()
 
-    def uninstall(self):
+    def uninstall(self, transaction: Optional[CopyTransaction] = None):
         """
         uninstall this package from its site packages
+        :param transaction: if given, the files are removed as part of this transaction and will be restored
+                            if it fails, otherwise a new transaction is used
         """
 
-        parents_to_check = set()
-        for installed_file in self._dist_info.installed_files():
-            installed_file.unlink(missing_ok=True)
-            parents_to_check.add(installed_file.parent)
+        if transaction:
+            self._remove_files(transaction)
+        else:
+            with CopyTransaction() as transaction:
+                self._remove_files(transaction)
 
-        installation_site = self.dist_info.path.parent
-        while parents_to_check:
-            parent = parents_to_check.pop()  # noqa : pycharm does not know's about set's pop method?
+        if self.site:
+            self.site.reload()
 
-            if parent == installation_site or not is_relative_to(parent, installation_site):
-                continue
+    def _remove_files(self, transaction: CopyTransaction):
+        site = self.dist_info.path.parent.resolve()
+        target_dirs = {site}  # directories that may hold files of this package, these are never removed themselves
+        containers = {site}
+        if self.site:
+            target = self.site.env.installation_target
+            target_dirs.update(
+                Path(it).resolve() for it in
+                (target.purelib, target.platlib, target.include, target.platinclude, target.scripts, target.data))
+            containers = {*target_dirs, self.site.env.path.resolve()}
 
-            if (precompiled := parent / "__pycache__").exists():
-                shutil.rmtree(precompiled, ignore_errors=True)
+        parents_to_check = set()
 
-            if is_empty_directory(parent):
-                parent.rmdir()
-                parents_to_check.add(parent.parent)
+        def remove(file: Path):
+            transaction.rm(file)
+            parents_to_check.add(file.parent)
+
+        for installed_file in set(self._dist_info.installed_files()):
+            if not any(container in installed_file.parents for container in containers):
+                warnings.warn(f"{self.name} lists a file that is not in its environment, keeping it: {installed_file}")
+            elif not os.path.lexists(installed_file):
+                parents_to_check.add(installed_file.parent)
+            elif installed_file.is_symlink() or not installed_file.is_dir():
+                remove(installed_file)
+
+            if installed_file.suffix == '.py' and (cache := installed_file.parent / "__pycache__").exists():
+                parents_to_check.add(cache)
+                precompiled_rx = re.compile(f"{re.escape(installed_file.stem)}\\.[^.]+(\\.opt-[^.]+)?\\.pyc")
+                for precompiled in list(cache.iterdir()):
+                    if precompiled_rx.fullmatch(precompiled.name):
+                        remove(precompiled)
 
         if self._dist_info.path.exists():
-            shutil.rmtree(self._dist_info.path)
+            transaction.rm(self._dist_info.path)
 
-        if self.site:
-            self.site.reload()
+        while parents_to_check:
+            parent = parents_to_check.pop()  # noqa : pycharm does not know's about set's pop method?
+            if any(parent == it or parent in it.parents for it in target_dirs) \
+                    or not any(it in parent.parents for it in target_dirs):
+                continue
+
+            if parent.is_dir() and is_empty_directory(parent):
+                transaction.rm(parent)
+                parents_to_check.add(parent.parent)
+            elif not parent.exists():
+                parents_to_check.add(parent.parent)
-- 
2.43.0


From e2d8c3e0dcd1bf3d851524f3530e70ec2cffce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 058/122] fix: helpers fill a given empty list or set, give the
 default of a missing index, and leave a text without an empty suffix as it is

---
 pkm/src/pkm/utils/seqs.py      | 4 ++--
 pkm/src/pkm/utils/sequences.py | 8 ++++----
 pkm/src/pkm/utils/strings.py   | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/utils/seqs.py b/pkm/src/pkm/utils/seqs.py
index e695d59..475ff3a 100644
--- a/pkm/src/pkm/utils/seqs.py
+++ b/pkm/src/pkm/utils/seqs.py
@@ -86,7 +86,7 @@ class Seq(Generic[_T], Iterator[_T]):
             op(it)
 
     def to_list(self, into: Optional[List[_T]] = None) -> List[_T]:
-        if into:
+        if into is not None:
             into.extend(self._iter)
         else:
             into = list(self._iter)
@@ -94,7 +94,7 @@ class Seq(Generic[_T], Iterator[_T]):
         return into
 
     def to_set(self, into: Optional[Set[_T]] = None) -> Set[_T]:
-        if into:
+        if into is not None:
             into.update(self._iter)
         else:
             into = set(self._iter)
diff --git a/pkm/src/pkm/utils/sequences.py b/pkm/src/pkm/utils/sequences.py
index 78d9123..59b56ce 100644
--- a/pkm/src/pkm/utils/sequences.py
+++ b/pkm/src/pkm/utils/sequences.py
@@ -68,13 +68,13 @@ def get_or_default(seq: Sequence[_T], index: int, default: _T) -> _T:
     """
     :param seq: the sequence to access
     :param index: the index to get
-    :param default: the value to return if `-len(seq) > index > len(seq)`
+    :param default: the value to return if not `-len(seq) <= index < len(seq)`
     :return: the value of `seq[index]` if such exists (no IndexError had been thrown upon accessing index),
              otherwise returns the `default` value
     """
-    if -len(seq) > index > len(seq):
-        return default
-    return seq[index]
+    if -len(seq) <= index < len(seq):
+        return seq[index]
+    return default
 
 
 def strs(seq: Sequence[_T]) -> List[str]:
diff --git a/pkm/src/pkm/utils/strings.py b/pkm/src/pkm/utils/strings.py
index 2c8d37f..8436164 100644
--- a/pkm/src/pkm/utils/strings.py
+++ b/pkm/src/pkm/utils/strings.py
@@ -8,7 +8,7 @@ def without_suffix(s: str, suffix: str) -> str:
     :return: the value of `s` without `suffix` if `s` ends with `suffix` otherwise unchanged `s`
     """
     if s.endswith(suffix):
-        return s[:-len(suffix)]
+        return s[:len(s) - len(suffix)]
 
     return s
 
-- 
2.43.0


From a4a80b4e5e873c1240ae4023d1ee7e62f59d49c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 059/122] fix: a promise that fails with an exception that is
 false in a boolean context is failed

---
 pkm/src/pkm/utils/promises.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/utils/promises.py b/pkm/src/pkm/utils/promises.py
index e432a52..c00ac7b 100644
--- a/pkm/src/pkm/utils/promises.py
+++ b/pkm/src/pkm/utils/promises.py
@@ -181,7 +181,7 @@ class _SimplePromise(Promise[_T]):
         while True:
             with self._wait_lock:
                 if self._done:
-                    if self._err:
+                    if self._err is not None:
                         raise self._err
                     return self._result
 
@@ -194,7 +194,7 @@ class _SimplePromise(Promise[_T]):
         return self._done
 
     def is_failed(self) -> bool:
-        return self._done and self._err
+        return self._done and self._err is not None
 
     def request_cancel(self) -> bool:
         return False
-- 
2.43.0


From 0b634abec30c24ec317d72a4377e429f72841129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 060/122] fix: records without a hash can be saved, and a
 record's absolute path is that of the file it lists

---
 pkm/src/pkm/api/distributions/distinfo.py | 2 +-
 pkm/src/pkm/config/configfiles.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/distinfo.py b/pkm/src/pkm/api/distributions/distinfo.py
index c0fa361..15d57e1 100644
--- a/pkm/src/pkm/api/distributions/distinfo.py
+++ b/pkm/src/pkm/api/distributions/distinfo.py
@@ -270,7 +270,7 @@ class Record:
     length: int
 
     def absolute_path(self, dist_info: DistInfo) -> Path:
-        return (dist_info.path / self.file).resolve()
+        return (dist_info.path.parent / self.file).resolve()
 
 
 @config(io=CSVConfigIO(
diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index fdfe30a..4bb3687 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -106,7 +106,7 @@ class CSVConfigIO(ConfigIO):
     def write(self, path: Path, data: _RAW_CONFIG_T):
         with path.open('w+', newline='') as new_record_fd:
             for record in data['records']:
-                csv.writer(new_record_fd).writerow(record[c] for c in self._headers)
+                csv.writer(new_record_fd).writerow(record.get(c, '') for c in self._headers)
 
     def read(self, path: Path) -> _RAW_CONFIG_T:
         with path.open('r', newline='') as records_fd:
-- 
2.43.0


From 7c8a6e181d804686e0e9747a2ca85938ebea5e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 061/122] fix: tar members that lead out of the target
 directory are refused, and a directory does not contain its siblings with a
 longer name

---
 pkm/src/pkm/utils/archives.py | 12 ++++++++++--
 pkm/src/pkm/utils/files.py    |  3 ++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/utils/archives.py b/pkm/src/pkm/utils/archives.py
index ec77799..0082005 100644
--- a/pkm/src/pkm/utils/archives.py
+++ b/pkm/src/pkm/utils/archives.py
@@ -6,6 +6,14 @@ from zipfile import ZipFile
 from pkm.utils.strings import endswith_any
 
 
+def _extract_tar(tar: tarfile.TarFile, target_directory: Path):
+    # refuse members that lead out of the target directory (where this version of python has this filter)
+    if hasattr(tarfile, 'data_filter'):
+        tar.extractall(target_directory, filter='data')
+    else:
+        tar.extractall(target_directory)
+
+
 def extract_archive(archive_path: Path, target_directory: Path):
     target_directory.mkdir(exist_ok=True, parents=True)
 
@@ -14,9 +22,9 @@ def extract_archive(archive_path: Path, target_directory: Path):
             z.extractall(target_directory)
     elif archive_path.name.endswith('.tar.gz'):
         with tarfile.open(archive_path) as tar:
-            tar.extractall(target_directory)
+            _extract_tar(tar, target_directory)
     elif archive_path.name.endswith(".tar.bz2"):
         with tarfile.open(archive_path, 'r:bz2') as tar:
-            tar.extractall(target_directory)
+            _extract_tar(tar, target_directory)
     else:
         raise UnsupportedOperation(f"does not support archive {archive_path.name}")
diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index aa1aaec..fae827a 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -279,7 +279,8 @@ def is_relative_to(path: Path, root: Path) -> bool:
     :param root: the path that may contain `path`
     """
 
-    return str(path.absolute()).startswith(str(root.absolute()))
+    path, root = Path(os.path.normpath(path.absolute())), Path(os.path.normpath(root.absolute()))
+    return path == root or root in path.parents
 
 
 def dir_size(directory: Path) -> int:
-- 
2.43.0


From f309681767195e54602dfec7df572a8563db5171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 062/122] fix: values that contain a colon or are repeated
 survive in wheel header files, pyvenv.cfg is written as the interpreter reads
 it, and unknown settings never displace known ones

---
 .../api/environments/environment_builder.py   |  4 +-
 pkm/src/pkm/config/configclass.py             | 13 ++++-
 pkm/src/pkm/config/configfiles.py             | 50 +++++++++++++++----
 3 files changed, 54 insertions(+), 13 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_builder.py b/pkm/src/pkm/api/environments/environment_builder.py
index e821235..524910a 100644
--- a/pkm/src/pkm/api/environments/environment_builder.py
+++ b/pkm/src/pkm/api/environments/environment_builder.py
@@ -11,7 +11,7 @@ from pkm.api.pkm import pkm
 from pkm.api.versions.version import Version
 from pkm.api.versions.version_specifiers import VersionSpecifier
 from pkm.config.configclass import ConfigFile, config, config_field
-from pkm.config.configfiles import WheelFileConfigIO
+from pkm.config.configfiles import PyVEnvConfigIO
 from pkm.utils.commons import NoSuchElementException
 
 _INTERPRETER_INTROSPECTIONS: Dict[str, EnvironmentIntrospection] = {}
@@ -113,7 +113,7 @@ def _introspection_for(interpreter_path: Path) -> EnvironmentIntrospection:
 
 
 @dataclass
-@config(io=WheelFileConfigIO())
+@config(io=PyVEnvConfigIO())
 class PyVEnvConfiguration(ConfigFile):
     home: Path
     version: Version
diff --git a/pkm/src/pkm/config/configclass.py b/pkm/src/pkm/config/configclass.py
index 39b3f94..4479b7d 100644
--- a/pkm/src/pkm/config/configclass.py
+++ b/pkm/src/pkm/config/configclass.py
@@ -269,6 +269,17 @@ def _shove_key(config_: _RAW_CONFIG_T, key: str, value: Any):
     config_[parts[-1]] = value
 
 
+def _merge_keys(config_: _RAW_CONFIG_T, values: Mapping[str, Any]):
+    for key, value in values.items():
+        if isinstance(value, Mapping):
+            if not isinstance(inner_config := config_.get(key), dict):
+                config_[key] = inner_config = {}
+
+            _merge_keys(inner_config, value)
+        else:
+            config_[key] = value
+
+
 class ConfigCodec:
 
     def __init__(self, field_codecs: Mapping[Type, ConfigFieldCodec] = None):
@@ -346,7 +357,7 @@ class ConfigCodec:
             value = getattr(config_object, field, None)
             if value is not None:
                 if schema.leftover:
-                    target_config.update(value)
+                    _merge_keys(target_config, value)
                     continue
                 elif codec := schema.codec or self.field_codec_for_or_none(schema.type):
                     try:
diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index 4bb3687..c0710be 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -2,7 +2,6 @@ import configparser
 import csv
 import json
 import os
-import re
 from pathlib import Path
 from typing import Mapping, Type, Any
 
@@ -81,26 +80,57 @@ class _WheelBoolFieldCodec(ConfigFieldCodec):
 _WheelBoolFieldCodec = _WheelBoolFieldCodec()
 
 
-class WheelFileConfigIO(ConfigIO):
+class _LinesConfigIO(ConfigIO):
+    """
+    io for files that are made of lines, each holding a single key and its value,
+    a key that is repeated in several lines has a list of values
+    """
 
-    def __init__(self, *, codec: ConfigCodec = None):
-        super().__init__(codec=(codec or ConfigCodec()).extended({bool: _WheelBoolFieldCodec}))
+    def __init__(self, delimiter: str, separator: str, *, codec: ConfigCodec = None):
+        super().__init__(
+            codec=(codec or ConfigCodec()).extended({bool: _WheelBoolFieldCodec, int: StringableFieldCodec}))
+        self._delimiter = delimiter
+        self._separator = separator
 
     def write(self, path: Path, data: _RAW_CONFIG_T):
-        path.write_text(os.linesep.join(f'{k}: {v}' for k, v in data.items()))
+        path.write_text(os.linesep.join(
+            f'{k}{self._separator}{v}'
+            for k, values in data.items()
+            for v in (values if isinstance(values, list) else [values])))
 
     def read(self, path: Path) -> _RAW_CONFIG_T:
-        seperator_rx = re.compile("\\s*:\\s*")
-        lines = (line.strip() for line in path.read_text().splitlines())
-        kvs = (seperator_rx.split(kv) for kv in lines if kv)
-        return {k: v for k, v in kvs}
+        data = {}
+        for line in path.read_text().splitlines():
+            if line.strip():
+                key, _, value = (it.strip() for it in line.partition(self._delimiter))
+                if key in data:
+                    data[key] = [*(data[key] if isinstance(data[key], list) else [data[key]]), value]
+                else:
+                    data[key] = value
+
+        return data
+
+
+class WheelFileConfigIO(_LinesConfigIO):
+
+    def __init__(self, *, codec: ConfigCodec = None):
+        super().__init__(':', ': ', codec=codec)
+
+
+class PyVEnvConfigIO(_LinesConfigIO):
+    """
+    io for the pyvenv.cfg file of virtual environments, which the interpreter reads as lines of `key = value`
+    """
+
+    def __init__(self, *, codec: ConfigCodec = None):
+        super().__init__('=', ' = ', codec=codec)
 
 
 class CSVConfigIO(ConfigIO):
 
     def __init__(self, *headers: str, codec: ConfigCodec = None):
         super().__init__(
-            codec=(codec or ConfigCodec()).extended({bool: StringableFieldCodec, int: StringableFieldCodec}))
+            codec=(codec or ConfigCodec()).extended({bool: _WheelBoolFieldCodec, int: StringableFieldCodec}))
         self._headers = headers
 
     def write(self, path: Path, data: _RAW_CONFIG_T):
-- 
2.43.0


From abe66c44c90a3164292a01ed3fcd0137f21390fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 063/122] fix: package descriptors and plans compare names
 normalized, and source names never contain a doubled separator

---
 pkm/src/pkm/api/packages/package.py              | 11 +++++++++--
 pkm/src/pkm/api/packages/package_installation.py |  3 ++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index 8c25822..24ac7e1 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -45,6 +45,13 @@ class PackageDescriptor:
 
         super().__setattr__('name', PackageDescriptor.normalize_name(self.name).replace('_', '-'))
 
+    def __eq__(self, other):
+        return isinstance(other, PackageDescriptor) \
+               and self.name_key == other.name_key and self.version == other.version
+
+    def __hash__(self):
+        return hash((self.name_key, self.version))
+
     def to_dependency(self, generalize: bool = False) -> "Dependency":
         from pkm.api.dependencies.dependency import Dependency
 
@@ -71,11 +78,11 @@ class PackageDescriptor:
 
     @staticmethod
     def package_name_key(package_name: str) -> str:
-        return re.sub("_+", '_', PackageDescriptor.normalize_src_package_name(package_name)).lower()
+        return PackageDescriptor.normalize_src_package_name(package_name).lower()
 
     @staticmethod
     def normalize_src_package_name(package_name: str) -> str:
-        return PackageDescriptor.normalize_name(package_name).translate({ord('-'): '_', ord('.'): '_'})
+        return re.sub("[-_.]+", '_', PackageDescriptor.normalize_name(package_name))
 
     @staticmethod
     def normalize_name(package_name: str) -> str:
diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 84b9aa3..83f1ca1 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -212,7 +212,8 @@ class InstallationPlan:
         self.store_modes: Optional[Dict[str, StoreMode]] = None
 
     def selected_package(self, name: str) -> Optional[Package]:
-        return first_or_none(it for it in self.packages if it.name == name)
+        name_key = PackageDescriptor.package_name_key(name)
+        return first_or_none(it for it in self.packages if it.name_key == name_key)
 
     def compute_operations_for_target(
             self, target: Optional[PackageInstallationTarget] = None) -> Dict[Package, PackageOperation]:
-- 
2.43.0


From 2f26b9ab7374d6adf2058a14c79b2815ded31008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:13 +0000
Subject: [PATCH 064/122] fix: a monitored block passes its error on whatever a
 listener does with it, and events without a listener of their kind are
 ignored

---
 pkm/src/pkm/utils/monitors.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/utils/monitors.py b/pkm/src/pkm/utils/monitors.py
index 3e466ca..163fd48 100644
--- a/pkm/src/pkm/utils/monitors.py
+++ b/pkm/src/pkm/utils/monitors.py
@@ -87,7 +87,13 @@ class _Monitor:
 
                             def fail(x: Any, err: Exception, *args, **kwargs):
                                 if coroutine := coroutines.pop(id(x), None):
-                                    coroutine.throw(err)
+                                    try:
+                                        coroutine.throw(err)
+                                    except StopIteration:
+                                        pass
+                                    except BaseException as e:
+                                        if e is not err:  # the listener may pass the error on
+                                            raise
 
                             callback.enter_method = enter
                             callback.leave_method = leave
@@ -106,13 +112,14 @@ class _Monitor:
         try:
             cb and cb.enter_method and cb.enter_method(context)
             yield
-        except Exception as e:
+        except BaseException as e:
             cb and cb.fail_method and cb.fail_method(context, e)
+            raise
         finally:
             cb and cb.leave_method and cb.leave_method(context)
 
     def notify(self, event: Any):
-        (cb := self._callbacks.get(type(event))) and cb.enter_method(event)
+        (cb := self._callbacks.get(type(event))) and cb.enter_method and cb.enter_method(event)
 
 
 Monitor = _Monitor()
-- 
2.43.0


From 419414ee278ff452d9f938819aa846cd9ef3723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 065/122] fix: entry points are read and run as their
 specification says, scripts start with interpreters of any path, windows
 launchers are built, and commands are split and monitored faithfully

---
 pkm/src/pkm/api/distributions/distinfo.py   |  2 +-
 pkm/src/pkm/api/environments/environment.py |  2 +-
 pkm/src/pkm/launchers/__init__.py           | 20 +++++++---
 pkm/src/pkm/launchers/executables.py        | 19 ++++++++--
 pkm/src/pkm/utils/entrypoints.py            | 12 +++---
 pkm/src/pkm/utils/processes.py              | 41 ++++-----------------
 6 files changed, 46 insertions(+), 50 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/distinfo.py b/pkm/src/pkm/api/distributions/distinfo.py
index 15d57e1..0da9ef9 100644
--- a/pkm/src/pkm/api/distributions/distinfo.py
+++ b/pkm/src/pkm/api/distributions/distinfo.py
@@ -227,7 +227,7 @@ class EntrypointsConfiguration(ConfigFile):
     def entrypoints(self, entrypoints):
         self._data.clear()
         by_group: Dict[str, List[EntryPoint]] = groupby(entrypoints, key=lambda e: e.group)
-        new_data = {group: {e.name: e.ref for e in entries} for group, entries in by_group.items()}
+        new_data = {group: {e.name: str(e.ref) for e in entries} for group, entries in by_group.items()}
         self._data.update(new_data)
 
 
diff --git a/pkm/src/pkm/api/environments/environment.py b/pkm/src/pkm/api/environments/environment.py
index 3997669..1fef38e 100644
--- a/pkm/src/pkm/api/environments/environment.py
+++ b/pkm/src/pkm/api/environments/environment.py
@@ -359,7 +359,7 @@ class OperatingPlatform:
     python_interpreter_bits: int  # 32 or 64
 
     def has_windows_os(self) -> bool:
-        return self.os == 'Windows'
+        return self.os == 'windows'
 
     def has_x86_cpu(self) -> bool:
         return self.machine in ("i386", "amd64", "x86", "x86_64")
diff --git a/pkm/src/pkm/launchers/__init__.py b/pkm/src/pkm/launchers/__init__.py
index f0746cd..a07e2c6 100644
--- a/pkm/src/pkm/launchers/__init__.py
+++ b/pkm/src/pkm/launchers/__init__.py
@@ -3,6 +3,7 @@ launchers are taken from:
 https://bitbucket.org/vinay.sajip/simple_launcher
 """
 import importlib.resources as resources
+from io import BytesIO
 from pathlib import Path
 from typing import TYPE_CHECKING
 from zipfile import ZipFile
@@ -31,17 +32,24 @@ def build_windows_script_launcher(
 
     op_plat = env.operating_platform
     arch_suffix = '-arm' if op_plat.has_arm_cpu() else ''
-    launcher_kind = 't' if is_gui else 'w'
-    launcher_name = f"{launcher_kind}{arch_suffix}{op_plat.os_bits}.exe"
+    launcher_kind = 'w' if is_gui else 't'
+    launcher_name = f"{launcher_kind}{op_plat.os_bits}{arch_suffix}.exe"
 
     launcher_data = resources.read_binary('pkm.launchers', launcher_name)
 
     result_file = target_dir / f"{file_name}.exe"
     with result_file.open('wb') as result_fd:
         result_fd.write(launcher_data)
-        result_fd.write(f"#!{env.interpreter_path.absolute()}\r\n".encode())
-        with ZipFile(result_fd) as result_zip_fd:
-            result_zip_fd.writestr("__main__.py", script.encode())
+        interpreter = str(env.interpreter_path.absolute())
+        if ' ' in interpreter:
+            interpreter = f'"{interpreter}"'
+        result_fd.write(f"#!{interpreter}\r\n".encode())
+
+        # the launcher requires that the offsets in the archive will be relative to the start of the archive
+        archive = BytesIO()
+        with ZipFile(archive, 'w') as archive_fd:
+            archive_fd.writestr("__main__.py", script.encode())
+        result_fd.write(archive.getvalue())
 
     return result_file
 
@@ -61,5 +69,5 @@ def build_windows_entrypoint_launcher(
 
     return build_windows_script_launcher(
         env, target_dir, entrypoint.name, entrypoint.ref.execution_script_snippet(),
-        entrypoint.group == EntryPoint.G_CONSOLE_SCRIPTS
+        entrypoint.group == EntryPoint.G_GUI_SCRIPTS
     )
diff --git a/pkm/src/pkm/launchers/executables.py b/pkm/src/pkm/launchers/executables.py
index 904ad1b..c51ba24 100644
--- a/pkm/src/pkm/launchers/executables.py
+++ b/pkm/src/pkm/launchers/executables.py
@@ -1,4 +1,5 @@
 import os
+import shlex
 import stat
 import sys
 from pathlib import Path
@@ -10,6 +11,18 @@ from pkm.launchers import build_windows_script_launcher
 if TYPE_CHECKING:
     from pkm.api.environments.environment import Environment
 
+_MAX_SHEBANG_PATH = 124
+
+
+def _shebang(interpreter_path: Path) -> str:
+    interpreter = str(interpreter_path.absolute())
+    if os.name != 'posix' or (len(interpreter) <= _MAX_SHEBANG_PATH and not any(c.isspace() for c in interpreter)):
+        return f"#!{interpreter}"
+
+    # such interpreter path is not supported in a shebang, the following lines are both a shell script that executes
+    # the interpreter and a python expression (a string) without any effect
+    return f"#!/bin/sh\n'''exec' {shlex.quote(interpreter)} \"$0\" \"$@\"\n' '''"
+
 
 class Executables:
 
@@ -31,7 +44,7 @@ class Executables:
                     if windowed_path.exists():
                         interpreter_path = windowed_path
 
-                target_fd.write(f"#!{interpreter_path.absolute()}{os.linesep}".encode(sys.getfilesystemencoding()))
+                target_fd.write(f"{_shebang(interpreter_path)}{os.linesep}".encode(sys.getfilesystemencoding()))
             else:
                 target_fd.write(first_line)
 
@@ -58,7 +71,7 @@ class Executables:
         if env.operating_platform.has_windows_os():
             return build_windows_script_launcher(env, target_dir, file_name, script, is_gui)
         else:
-            source = f"#!{env.interpreter_path.absolute()}\n{script}"
+            source = f"{_shebang(env.interpreter_path)}\n{script}"
 
             result_script_path = target_dir / file_name
             result_script_path.write_text(source)
@@ -79,4 +92,4 @@ class Executables:
 
         return Executables.generate(
             env, target_dir, entrypoint.name, entrypoint.ref.execution_script_snippet(),
-            entrypoint.group == EntryPoint.G_CONSOLE_SCRIPTS)
+            entrypoint.group == EntryPoint.G_GUI_SCRIPTS)
diff --git a/pkm/src/pkm/utils/entrypoints.py b/pkm/src/pkm/utils/entrypoints.py
index da1afdd..932b2e4 100644
--- a/pkm/src/pkm/utils/entrypoints.py
+++ b/pkm/src/pkm/utils/entrypoints.py
@@ -11,7 +11,7 @@ from pkm.api.packages.package import PackageDescriptor
 from pkm.utils.commons import UnsupportedOperationException
 
 # noinspection RegExpRedundantEscape
-_OBJ_REF_RX = re.compile(r"(?P<mdl>[^:]*)(:(?P<obj>[^\[]*)\s*(\[\s*(?P<ext>[^\]]*)\s*\])?)?")
+_OBJ_REF_RX = re.compile(r"(?P<mdl>[^:\[]*)(:(?P<obj>[^\[]*))?(\[\s*(?P<ext>[^\]]*)\s*\])?")
 _EXT_DELIM_RX = re.compile("\\s*,\\s*")
 
 
@@ -38,7 +38,7 @@ class ObjectReference:
 
     def import_object(self) -> Any:
         module = self.import_module()
-        return reduce(getattr, self.object_path.split("."), module)
+        return reduce(getattr, self.object_path.split("."), module) if self.object_path else module
 
     def execution_script_snippet(self) -> str:
         if not self.object_path:
@@ -46,15 +46,17 @@ class ObjectReference:
                 f"{str(self)} cannot be used as script generator - "
                 f"it must be of the format module.path:zero.arg.function.path")
 
-        return f"import sys;import {self.module_path};sys.exit({self.module_path}.{self.object_path}())"
+        # importing from the module as its own name may be hidden by an attribute of the package that contains it
+        imported_object = self.object_path.split(".")[0]
+        return f"import sys;from {self.module_path} import {imported_object};sys.exit({self.object_path}())"
 
     @classmethod
     def parse(cls, refstr: str) -> "ObjectReference":
         if not (match := _OBJ_REF_RX.match(refstr)):
             raise ValueError(f"could not parse object reference from string: '{refstr}'")
 
-        module_path = match.group('mdl')
-        object_path = match.group('obj')
+        module_path = match.group('mdl').strip()
+        object_path = obj.strip() if (obj := match.group('obj')) else None
         extras = _EXT_DELIM_RX.split(ext.strip()) if (ext := match.group('ext')) else None
 
         return ObjectReference(module_path, object_path, extras)
diff --git a/pkm/src/pkm/utils/processes.py b/pkm/src/pkm/utils/processes.py
index 26063e4..6a96093 100644
--- a/pkm/src/pkm/utils/processes.py
+++ b/pkm/src/pkm/utils/processes.py
@@ -1,5 +1,6 @@
 import os
 import platform
+import shlex
 import subprocess
 import sys
 from dataclasses import dataclass
@@ -7,7 +8,6 @@ from subprocess import CompletedProcess
 from typing import List, NoReturn, Mapping
 
 from pkm.utils.monitors import MonitoredOperation, MonitoredEvent
-from pkm.utils.parsers import SimpleParser
 
 _IS_WINDOWS = platform.system() == 'Windows'
 
@@ -29,50 +29,23 @@ def monitored_run(execution_name: str, cmd: List[str], **subprocess_run_kwargs)
         def decode(line):  # noqa
             nonlocal decode
             if hasattr(line, 'decode'):
-                decode = lambda line: line.decode()  # noqa
+                decode = lambda line: line.decode(errors='replace')  # noqa
             else:
                 decode = lambda line: line  # noqa
 
             return decode(line)
 
-        while (line := stdout.readline()) or (rcode := proc.poll()) is None:
-            ProcessExecutionOutputLineEvent(decode(line).strip()).notify(mpo)
+        with stdout:
+            while line := stdout.readline():
+                ProcessExecutionOutputLineEvent(decode(line).strip()).notify(mpo)
 
+        rcode = proc.wait()
         ProcessExecutionExitEvent(rcode).notify(mpo)
         return CompletedProcess(cmd, rcode)
 
 
-class _CommandParser(SimpleParser):
-    def read_command(self):
-        result: List[str] = []
-
-        self.match_ws()
-        while self.is_not_empty():
-            if self.peek() in "\"'":
-                result.append(self.read_str())
-            else:
-                result.append(self.until(lambda i, s: s[i].isspace()))
-            self.match_ws()
-
-        return result
-
-    def read_str(self) -> str:
-        quotes = self.match_any('"', "'")
-        if not quotes:
-            self.raise_err("expecting start of string")
-
-        s = quotes + self.until_match(quotes)
-        while s[-1] == '\\':
-            s += self.next() + self.until_match(quotes)
-
-        s += quotes
-        self.match_or_err(quotes, 'basic string ending expected')
-
-        return eval(s)
-
-
 def split_command(cmd: str) -> List[str]:
-    return _CommandParser(cmd).read_command()
+    return shlex.split(cmd)
 
 
 @dataclass
-- 
2.43.0


From 3263bc6fca49d0ab672dd23abd1824af58e65e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 066/122] fix: metadata files keep long, multi-line and
 non-ASCII texts, the description, urls and maintainers, and write interpreter
 ranges that other tools read

---
 pkm/src/pkm/api/packages/package_metadata.py  | 106 +++++++++++-------
 .../api/projects/pyproject_configuration.py   |  20 ----
 pkm/src/pkm/config/configclass.py             |   3 +-
 3 files changed, 70 insertions(+), 59 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 84360f6..30cb5fe 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -1,20 +1,20 @@
 from __future__ import annotations
 
-import warnings
+import textwrap
 from dataclasses import dataclass
-from email.message import EmailMessage
 from email.parser import Parser
+from email.utils import specialsre, escapesre  # noqa
 from pathlib import Path
-from typing import List, TYPE_CHECKING, Dict, Any
+from typing import List, TYPE_CHECKING, Dict, Any, Optional
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.versions.version import Version
 from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions
-from pkm.config.configclass import ConfigIO, config, config_field, ConfigFile
+from pkm.config.configclass import ConfigIO, config, config_field, config_field_codec, ConfigFile
 from pkm.utils.dicts import get_or_put, remove_none_values
 
 if TYPE_CHECKING:
-    from pkm.api.projects.pyproject_configuration import ProjectConfig
+    from pkm.api.projects.pyproject_configuration import ContactInfo, ProjectConfig
 
 _METADATA_VERSION = '2.1'
 
@@ -24,10 +24,16 @@ _MULTI_FIELDS = {
 }
 
 
+_FIELDS_BY_LOWERCASE = {field.lower(): field for field in (
+    'Metadata-Version', 'Name', 'Version', 'Summary', 'Description', 'Description-Content-Type', 'Keywords',
+    'Home-page', 'Download-URL', 'Author', 'Author-email', 'Maintainer', 'Maintainer-email', 'License',
+    'License-Expression', 'License-File', 'Requires-Python', *_MULTI_FIELDS)}
+
+
 class PackageMetadataIO(ConfigIO):
 
     def write(self, path: Path, data: Dict[str, Any]):
-        msg = EmailMessage()
+        lines: List[str] = []
         for key, value in data.items():
             if value is None:
                 continue
@@ -38,43 +44,72 @@ class PackageMetadataIO(ConfigIO):
             if key == 'Description':
                 continue  # will add it in payload
 
-            if isinstance(value, List):
-                for item in value:
-                    msg[key] = item
-            else:
-                try:
-                    msg[key] = value
-                except Exception as e:
-                    warnings.warn(f"malformed metadata key,value ({key}={value}) | {e}, ignoring it")
+            for item in (value if isinstance(value, List) else [value]):
+                # lines that are indented continue the value of the field
+                lines.append(f"{key}: " + str(item).replace('\r\n', '\n').replace('\n', f"\n{' ' * 8}") + '\n')
 
         if payload := data.get("Description"):
-            msg.set_payload(payload)
+            lines.append(f"\n{payload}")
 
-        path.write_text(msg.as_string())
+        path.write_text(''.join(lines), encoding='utf-8')
 
     def read(self, path: Path) -> Dict[str, Any]:
         if not path.exists():
             return {}
 
         parser = Parser()
-        with path.open('r', errors="ignore") as path_fd:
+        with path.open('r', encoding='utf-8', errors="ignore") as path_fd:
             content = parser.parse(path_fd)
 
-            data = {}
-            for key, value in content.items():
-                if key in _MULTI_FIELDS:
-                    get_or_put(data, key, list).append(value)
-                elif old_value := data.get(key):
-                    if isinstance(old_value, List):
-                        old_value.append(value)
-                    else:
-                        data[key] = [old_value, value]
+        data = {}
+        for key, value in content.items():
+            key = _FIELDS_BY_LOWERCASE.get(key.lower(), key)
+            value = str(value)
+            if '\n' in value:  # remove the indentation of the continuation lines
+                value = textwrap.dedent(' ' * 8 + value.replace(f"\n{' ' * 7}|", f"\n{' ' * 8}"))
+
+            if key in _MULTI_FIELDS:
+                get_or_put(data, key, list).append(value)
+            elif old_value := data.get(key):
+                if isinstance(old_value, List):
+                    old_value.append(value)
                 else:
-                    data[key] = value
+                    data[key] = [old_value, value]
+            else:
+                data[key] = value
+
+        if isinstance(payload := content.get_payload(), str) and payload.strip():
+            data['Description'] = payload
 
         return data
 
 
+def _contact_fields(role: str, contacts: Optional[List["ContactInfo"]]) -> Dict[str, str]:
+    contacts = contacts or []
+    return {
+        role: ', '.join(c.name for c in contacts if c.name and not c.email) or None,
+        f"{role}-email": ', '.join(_format_address(c.name, c.email) for c in contacts if c.email) or None
+    }
+
+
+def _format_address(name: Optional[str], email: str) -> str:
+    """
+    adjusted from source of email.utils.formataddr, make sure the given name is according to rfc822
+    """
+    if not name:
+        return email
+
+    quotes = '"' if specialsre.search(name) else ''
+    return f"{quotes}{escapesre.sub(lambda m: chr(92) + m.group(), name)}{quotes} <{email}>"
+
+
+def _unparse_python_spec(spec: VersionSpecifier) -> Optional[str]:
+    return None if spec is AllowAllVersions else spec.as_requirement()
+
+
+PYTHON_SPEC_CODEC = config_field_codec(VersionSpecifier.parse, _unparse_python_spec)
+
+
 @dataclass
 @config(io=PackageMetadataIO())
 class PackageMetadata(ConfigFile):
@@ -89,7 +124,8 @@ class PackageMetadata(ConfigFile):
     summary: str = config_field(key="Summary")
     description: str = config_field(key="Description")
     dependencies: List[Dependency] = config_field(key="Requires-Dist", default_factory=list)
-    required_python_spec: VersionSpecifier = config_field(key="Requires-Python", default=AllowAllVersions)
+    required_python_spec: VersionSpecifier = config_field(
+        key="Requires-Python", default=AllowAllVersions, codec=PYTHON_SPEC_CODEC)
     leftovers = config_field(leftover=True)
 
     @classmethod
@@ -101,12 +137,6 @@ class PackageMetadata(ConfigFile):
         #    with the format {name} <{email}> (with appropriate quoting, e.g. using email.headerregistry.Address).
         # 4. Multiple values should be separated by commas.
 
-        author_names = [a.name for a in (prjc.authors or []) if a.name]
-        author_emails = [a.email for a in (prjc.authors or []) if a.email]
-
-        maintainer_names = [a.name for a in (prjc.authors or []) if a.name]
-        maintainer_emails = [a.email for a in (prjc.authors or []) if a.email]
-
         extras = list((prjc.optional_dependencies or {}).keys())
         all_deps = prjc.all_dependencies
 
@@ -114,11 +144,11 @@ class PackageMetadata(ConfigFile):
             'Metadata-Version': _METADATA_VERSION,
             'Name': prjc.name, 'Version': str(prjc.version),
             'Summary': prjc.description, 'Description': prjc.readme_content(),
-            'Description-Content-Type': prjc.readme_content_type(), 'Keywords': prjc.keywords or [],
-            'Author': ', '.join(author_names), 'Author-email': ', '.join(author_emails),
-            'Maintainer': ', '.join(maintainer_names), 'Maintainer-email': ', '.join(maintainer_emails),
+            'Description-Content-Type': prjc.readme_content_type(), 'Keywords': ','.join(prjc.keywords or []) or None,
+            **_contact_fields('Author', prjc.authors), **_contact_fields('Maintainer', prjc.maintainers),
+            'Project-URL': [f"{label}, {url}" for label, url in (prjc.urls or {}).items()],
             'License': prjc.license_content(), 'Classifier': prjc.classifiers,
-            'Requires-Dist': [str(d) for d in all_deps], 'Requires-Python': str(prjc.requires_python),
+            'Requires-Dist': [str(d) for d in all_deps], 'Requires-Python': _unparse_python_spec(prjc.requires_python),
             'Provides-Extra': extras,
             # 'Dynamic': prjc.dynamic or [], add back when pypi supports metadata version 2.2
         }
diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 4ae90da..e75fbc3 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -3,8 +3,6 @@ from __future__ import annotations
 import re
 from collections import defaultdict
 from dataclasses import dataclass, replace
-from email.header import Charset  # noqa
-from email.utils import specialsre, escapesre  # noqa
 from pathlib import Path
 from typing import List, Optional, Union, Dict, Mapping, Any, Iterator, Type
 
@@ -29,30 +27,12 @@ class BuildSystemConfig:
     backend_path: List[str] = config_field(key='backend-path')
 
 
-_contect_info_charset = Charset('utf-8')
-
-
 @dataclass(eq=True)
 @config
 class ContactInfo:
     name: str = None
     email: str = None
 
-    def __post_init__(self):
-        """
-        adjusted from source of email.utils.formataddr, make sure the given name is according to rfc822
-        """
-        try:
-            self.name.encode('ascii')
-        except UnicodeEncodeError:
-            self.name = _contect_info_charset.header_encode(self.name)
-        else:
-            quotes = ''
-            if specialsre.search(self.name):
-                quotes = '"'
-            name = escapesre.sub(r'\\\g<0>', self.name)
-            self.name = f"{quotes}{name}{quotes}"
-
 
 def _entrypoints_from_config(group: str, ep: Dict[str, str]) -> List[EntryPoint]:
     return [EntryPoint(group, ep_name, ObjectReference.parse(ep_oref)) for ep_name, ep_oref in ep.items()]
diff --git a/pkm/src/pkm/config/configclass.py b/pkm/src/pkm/config/configclass.py
index 4479b7d..1af54bf 100644
--- a/pkm/src/pkm/config/configclass.py
+++ b/pkm/src/pkm/config/configclass.py
@@ -372,7 +372,8 @@ class ConfigCodec:
                 else:
                     raise ValueError(f"no codec could be found for type: {schema.type}")
 
-                _shove_key(target_config, schema.key or field, value)
+                if value is not None:
+                    _shove_key(target_config, schema.key or field, value)
         return target_config
 
 
-- 
2.43.0


From 4af8acfa2593c3489d4798a955547f2e55f33bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:22 +0000
Subject: [PATCH 067/122] fix: a project file that is loaded and saved keeps
 its settings as they were written and in their order, optional values work,
 readme, license, entry points and conditional optional dependencies mean what
 PEP 621 says

---
 .../src/pkm_cli/controllers/prj_controller.py |  29 +++--
 pkm/src/pkm/api/packages/package.py           |   7 +-
 .../api/projects/pyproject_configuration.py   | 112 +++++++++++-------
 pkm/src/pkm/config/configclass.py             |  51 +++++---
 pkm/src/pkm/config/configfiles.py             |  18 ++-
 5 files changed, 144 insertions(+), 73 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/controllers/prj_controller.py b/pkm-cli/src/pkm_cli/controllers/prj_controller.py
index 061c83b..8f4c605 100644
--- a/pkm-cli/src/pkm_cli/controllers/prj_controller.py
+++ b/pkm-cli/src/pkm_cli/controllers/prj_controller.py
@@ -1,4 +1,6 @@
 from __future__ import annotations
+
+from dataclasses import replace
 from typing import Optional, List, Iterable, Dict
 
 from pkm.api.dependencies.dependency import Dependency
@@ -33,15 +35,20 @@ class PrjController:
         prj.config.project.dependencies = filter_dep(project_dependencies)
         prj.config.project.optional_dependencies = {g: filter_dep(d) for g, d in project_optional_deps.items()}
 
-        prj.update_at(prj.attached_environment.installation_target)
-        removed = prj.attached_environment.uninstall(packages, force)
-        Display.print(f"Packages Removed: {', '.join(removed)}")
+        try:
+            prj.update_at(prj.attached_environment.installation_target)
+            removed = prj.attached_environment.uninstall(packages, force)
+            Display.print(f"Packages Removed: {', '.join(removed)}")
 
-        Display.print("Updating pyproject & lock")
-        prj.config.save()
-        prj.lock.update_lock(prj.attached_environment).save()
+            Display.print("Updating pyproject & lock")
+            prj.config.save()
+            prj.lock.update_lock(prj.attached_environment).save()
 
-        Display.print("Operation Completed Successfully")
+            Display.print("Operation Completed Successfully")
+        except Exception as e:
+            prj.config.project.dependencies = project_dependencies
+            prj.config.project.optional_dependencies = project_optional_deps
+            raise e
 
     def install_dependencies(
             self, dependencies: List[Dependency], optional_group: Optional[str] = None, update: bool = False,
@@ -73,10 +80,14 @@ class PrjController:
             for dependency in dependencies:
                 if dependency.version_spec is AllowAllVersions:
                     installed = site_packages.installed_package(dependency.package_name)
-                    assert installed, f"could not find {dependency.package_name}"
+                    if not installed:
+                        # may happen if the dependency is not applicable for the attached environment
+                        continue
+
                     dependency_index = seq(configured_dependencies) \
                         .index_of_matching(lambda it: it.package_name_key == dependency.package_name_key)
-                    configured_dependencies[dependency_index] = installed.descriptor.to_dependency(generalize=True)
+                    configured_dependencies[dependency_index] = replace(
+                        dependency, version_spec=installed.descriptor.to_dependency(generalize=True).version_spec)
 
             self.prj.config.save()
             self.prj.lock.update_lock(self.prj.attached_environment).save()
diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index 24ac7e1..7d25950 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -59,10 +59,9 @@ class PackageDescriptor:
         if generalize:
             installed_version = self.version
             if isinstance(installed_version, StandardVersion):
-                spec = StandardVersionRange(
-                    installed_version,
-                    replace(installed_version, release=(installed_version.release[0] + 1,)),
-                    True, False)
+                next_major = StandardVersion(
+                    release=(installed_version.release[0] + 1,), epoch=installed_version.epoch)
+                spec = StandardVersionRange(replace(installed_version, local_label=None), next_major, True, False)
 
         return Dependency(self.name, spec)
 
diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index e75fbc3..82b0d5d 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -1,20 +1,19 @@
 from __future__ import annotations
 
-import re
 from collections import defaultdict
 from dataclasses import dataclass, replace
 from pathlib import Path
-from typing import List, Optional, Union, Dict, Mapping, Any, Iterator, Type
+from typing import List, Optional, Union, Dict, Mapping, Any, Iterator, Type, Callable
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.dependencies.env_markers import EnvironmentMarker
 from pkm.api.distributions.distinfo import EntryPoint, ObjectReference
 from pkm.api.packages.package import PackageDescriptor
+from pkm.api.packages.package_metadata import PYTHON_SPEC_CODEC
 from pkm.api.versions.version import Version
 from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions
-from pkm.config.configclass import config, config_field, ConfigFieldCodec, ConfigCodec, ConfigFile
+from pkm.config.configclass import config, config_field, ConfigFieldCodec, ConfigCodec, ConfigFile, config_field_codec
 from pkm.config.configfiles import TomlConfigIO
-from pkm.utils.properties import cached_property
 
 
 @dataclass(eq=True)
@@ -25,6 +24,7 @@ class BuildSystemConfig:
         default_factory=lambda: [Dependency.parse('setuptools'), Dependency.parse('wheel'), Dependency.parse('pip')])
     build_backend: str = config_field(key='build-backend', default='setuptools.build_meta:__legacy__')
     backend_path: List[str] = config_field(key='backend-path')
+    leftovers = config_field(leftover=True)
 
 
 @dataclass(eq=True)
@@ -32,6 +32,7 @@ class BuildSystemConfig:
 class ContactInfo:
     name: str = None
     email: str = None
+    leftovers = config_field(leftover=True)
 
 
 def _entrypoints_from_config(group: str, ep: Dict[str, str]) -> List[EntryPoint]:
@@ -51,6 +52,7 @@ PKM_DIST_CFG_TYPE_NONE = "none"
 @config
 class PkmDistributionConfig:
     type: str  # lib, cnt-app
+    leftovers = config_field(leftover=True)
 
 
 @dataclass(eq=True)
@@ -60,6 +62,7 @@ class PkmApplicationConfig:
     dependencies: List[Dependency]
     dependency_overwrites: Dict[str, Dependency] = config_field(key='dependency-overwrites')
     exposed_packages: List[str] = config_field(key='exposed-packages')
+    leftovers = config_field(leftover=True)
 
 
 @dataclass(eq=True)
@@ -67,32 +70,40 @@ class PkmApplicationConfig:
 class PkmProjectConfig:
     packages: Optional[List[str]] = None
     group: Optional[str] = None  # TODO: remove group and use conventions only?
+    leftovers = config_field(leftover=True)
+
+
+@dataclass(eq=True)
+class TypedContent:
+    """
+    a text, or a Path to a text file, with an explicit content type (e.g., 'text/markdown')
+    """
+    content: Union[Path, str]
+    content_type: str
 
 
 class _TextOrFileConfigFieldCodec(ConfigFieldCodec):
 
-    def __init__(self, allows_raw_text: bool):
-        self._allows_raw_text = allows_raw_text
+    def __init__(self, string_type: Callable[[str], Union[Path, str]]):
+        """
+        :param string_type: the meaning of a value that is given as a plain string
+        """
+        self._string_type = string_type
 
-    def parse(self, parent: ConfigCodec, type_: Type, v: Any) -> Union[Path, str, None]:
-        if self._allows_raw_text and isinstance(v, str):
-            return v
+    def parse(self, parent: ConfigCodec, type_: Type, v: Any) -> Union[Path, str, TypedContent, None]:
+        if isinstance(v, str):
+            return self._string_type(v)
 
         if not isinstance(v, Mapping):
             raise ValueError(f"malformed value: {v}")
 
-        if 'text' in v:
-            return v['text']
-        else:
-            return Path(v['file'])
+        content = v['text'] if 'text' in v else Path(v['file'])
+        return TypedContent(content, v['content-type']) if 'content-type' in v else content
 
-    def unparse(self, parent: ConfigCodec, type_: Type, v: Union[Path, str, None]) -> Any:
-        if isinstance(v, Path):
-            return {'file': str(v)}
-        elif self._allows_raw_text:
-            return v
-        else:
-            return {'text': v}
+    def unparse(self, parent: ConfigCodec, type_: Type, v: Union[Path, str, TypedContent, None]) -> Any:
+        if isinstance(v, TypedContent):
+            return {**self.unparse(parent, type_, v.content), 'content-type': v.content_type}
+        return {'file': str(v)} if isinstance(v, Path) else {'text': v}
 
 
 @dataclass(eq=True)
@@ -103,10 +114,10 @@ class ProjectConfig:
     https://www.python.org/dev/peps/pep-0621/, https://www.python.org/dev/peps/pep-0631/
     """
 
-    # The name of the project.
-    name: str
+    # The (normalized) name of the project.
+    name: str = config_field(required=True, codec=config_field_codec(PackageDescriptor.normalize_name, str))
     # The version of the project as supported by PEP 440.
-    version: Version
+    version: Version = None
     # The summary description of the project.
     description: str = None
     # The people or organizations considered to be the "authors" of the project.
@@ -123,15 +134,16 @@ class ProjectConfig:
     # data in the corresponding field means that a user tool provides it dynamically
     dynamic: List[str] = None
     # The Python version requirements of the project.
-    requires_python: VersionSpecifier = config_field(key="requires-python", default=AllowAllVersions)
+    requires_python: VersionSpecifier = config_field(
+        key="requires-python", default=AllowAllVersions, codec=PYTHON_SPEC_CODEC)
     # The dependencies of the project.
     dependencies: List[Dependency] = config_field(default_factory=list)
     # The optional dependencies of the project, grouped by the 'extra' name that provides them.
     optional_dependencies: Dict[str, List[Dependency]] = config_field(key="optional-dependencies", default_factory=dict)
     # The actual text or Path to a text file containing the full description of this project.
-    readme: Union[Path, str, None] = config_field(codec=_TextOrFileConfigFieldCodec(True))
+    readme: Union[Path, str, TypedContent, None] = config_field(codec=_TextOrFileConfigFieldCodec(Path))
     # The project licence identifier or path to the actual licence file
-    license: Union[str, Path, None] = config_field(codec=_TextOrFileConfigFieldCodec(False))
+    license: Union[str, Path, None] = config_field(codec=_TextOrFileConfigFieldCodec(str))
     # list of entry points, following https://packaging.python.org/en/latest/specifications/entry-points/.
     _entry_points: Dict[str, Dict[str, str]] = config_field(key="entry-points", default_factory=dict)
     _scripts: Dict[str, str] = config_field(key="scripts", default_factory=dict)
@@ -141,17 +153,20 @@ class ProjectConfig:
 
     # all_fields: Dict[str, Any]
 
-    @cached_property
+    # the directory that the readme and license files are relative to
+    _source_dir = Path()
+
+    @property
     def entry_points(self) -> Mapping[str, List[EntryPoint]]:
         result: Dict[str, List[EntryPoint]] = defaultdict(list)
         if self._entry_points:
-            result.update({g: _entrypoints_from_config(g, eps) for g, eps in self.entry_points.values()})
+            result.update({g: _entrypoints_from_config(g, eps) for g, eps in self._entry_points.items()})
         if self._scripts:
             result[EntryPoint.G_CONSOLE_SCRIPTS] \
                 .extend(_entrypoints_from_config(EntryPoint.G_CONSOLE_SCRIPTS, self._scripts))
         if self._gui_scripts:
             result[EntryPoint.G_GUI_SCRIPTS] \
-                .extend(_entrypoints_from_config(EntryPoint.G_CONSOLE_SCRIPTS, self._gui_scripts))
+                .extend(_entrypoints_from_config(EntryPoint.G_GUI_SCRIPTS, self._gui_scripts))
 
         return result
 
@@ -169,33 +184,32 @@ class ProjectConfig:
         """
         return (d := self.dynamic) and field in d  # noqa
 
-    @cached_property
+    @property
     def all_dependencies(self) -> List[Dependency]:
         all_deps = [d for d in (self.dependencies or [])]
         optional_deps = self.optional_dependencies or {}
         for od_group, deps in optional_deps.items():
-            extra_rx = re.compile(f'extra\\s*==\\s*(\'{od_group}\'|"{od_group}")')
+            extra_marker = EnvironmentMarker.parse_pep508(f"extra == '{od_group}'")
             for dep in deps:
-                if not dep.env_marker or not extra_rx.match(str(dep.env_marker)):
-                    new_marker = (str(dep.env_marker).rstrip(';') + ';') if dep.env_marker else ''
-                    new_marker = f"{new_marker}extra==\'{od_group}\'"
-                    all_deps.append(replace(dep, env_marker=EnvironmentMarker.parse_pep508(new_marker)))
-                else:
-                    all_deps.append(dep)
+                new_marker = extra_marker
+                if dep.env_marker and str(dep.env_marker) != str(extra_marker):
+                    new_marker = EnvironmentMarker.parse_pep508(f"({dep.env_marker}) and {extra_marker}")
+                all_deps.append(replace(dep, env_marker=new_marker))
         return all_deps
 
     def package_descriptor(self) -> PackageDescriptor:
         return PackageDescriptor(self.name, self.version)
 
     def readme_content(self) -> str:
-        if not self.readme:
+        readme = self.readme.content if isinstance(self.readme, TypedContent) else self.readme
+        if not readme:
             return ""
 
-        if isinstance(self.readme, str):
-            return self.readme
+        if isinstance(readme, str):
+            return readme
 
-        if self.readme.exists():
-            return self.readme.read_text()
+        if (readme_file := self._source_dir / readme).exists():
+            return readme_file.read_text(encoding='utf-8')
 
         return ""
 
@@ -210,6 +224,9 @@ class ProjectConfig:
             yield from gui_scripts
 
     def readme_content_type(self) -> str:
+        if isinstance(self.readme, TypedContent):
+            return self.readme.content_type
+
         if self.readme and isinstance(self.readme, Path):
             readme_suffix = self.readme.suffix
             if readme_suffix == '.md':
@@ -226,7 +243,7 @@ class ProjectConfig:
         if isinstance(self.license, str):
             return self.license
 
-        return self.license.read_text()
+        return (self._source_dir / self.license).read_text(encoding='utf-8')
 
 
 _LEGACY_PROJECT_DYNAMIC = [
@@ -244,6 +261,12 @@ class PyProjectConfiguration(ConfigFile):
         key="tool.pkm.distribution", default_factory=lambda: PkmDistributionConfig(PKM_DIST_CFG_TYPE_LIB))
     _leftovers = config_field(leftover=True)
 
+    @ConfigFile.path.setter
+    def path(self, v: Optional[Path]):
+        self._path = v
+        if v and self.project:
+            self.project._source_dir = v.absolute().parent
+
     @classmethod
     def load_effective(cls, pyproject_file: Path,
                        package: Optional[PackageDescriptor] = None) -> "PyProjectConfiguration":
@@ -261,8 +284,7 @@ class PyProjectConfiguration(ConfigFile):
         # ensure project:
         if not pyproject.project:
             pyproject.project = ProjectConfig(
-                dynamic=_LEGACY_PROJECT_DYNAMIC, name=(package or source_tree).name,
+                dynamic=_LEGACY_PROJECT_DYNAMIC, name=PackageDescriptor.normalize_name((package or source_tree).name),
                 version=package.version if package else Version.parse('unknown_version'))
 
-        pyproject.project.name = PackageDescriptor.normalize_name(pyproject.project.name)
         return pyproject
diff --git a/pkm/src/pkm/config/configclass.py b/pkm/src/pkm/config/configclass.py
index 1af54bf..0abb970 100644
--- a/pkm/src/pkm/config/configclass.py
+++ b/pkm/src/pkm/config/configclass.py
@@ -1,12 +1,13 @@
 from __future__ import annotations
 
+import copy
 import dataclasses
 import typing
 from abc import abstractmethod, ABC
 from dataclasses import dataclass
 from enum import Enum
 from pathlib import Path
-from typing import TypeVar, Dict, Any, Type, Generic, List, Mapping, Optional, Callable, Protocol
+from typing import TypeVar, Dict, Any, Type, Generic, List, Mapping, Optional, Callable, Protocol, Union
 
 from pkm.utils.commons import NoSuchElementException, UnsupportedOperationException
 from pkm.utils.enums import enum_by_name
@@ -17,6 +18,7 @@ _T = TypeVar("_T")
 _RAW_CONFIG_T = Dict[str, Any]
 _CONFIG_SCHEMA_FIELD = "__config_schema__"
 _CONFIG_IO_FIELD = "__config_io__"
+_CONFIG_RAW_VALUES_FIELD = "__config_raw_values__"
 
 
 # noinspection PyUnusedLocal
@@ -71,7 +73,7 @@ class ConfigFile(ABC, Serializable):
     @classmethod
     def load(cls, path: Path, *, target_object: ConfigFile = None) -> ConfigFile:
         result = cls._io().load(path, cls, target_object)
-        result._path = path
+        result.path = path
         return result
 
     @classmethod
@@ -248,6 +250,11 @@ class ConfigIO(ABC):
         self.write(path, self.codec.unparse(obj))
 
 
+def _unwrap_optional(type_: Type) -> Type:
+    options = [t for t in typing.get_args(type_) if t is not type(None)]
+    return options[0] if typing.get_origin(type_) is Union and len(options) == 1 else type_
+
+
 def _pop_key(config_: _RAW_CONFIG_T, key: str) -> Any:
     parts = key.split('.')
     for i in range(len(parts) - 1):
@@ -315,6 +322,7 @@ class ConfigCodec:
 
         call_post_init = target_object is None
         target_object = target_object or target_class.__new__(target_class)
+        raw_values: Dict[str, Any] = {}  # the values as they were written
         for field, schema in field_schema.items():
 
             if schema.leftover:
@@ -322,6 +330,7 @@ class ConfigCodec:
             else:
                 key = schema.key or field
                 value = _pop_key(config_, key)
+                raw_values[field] = copy.deepcopy(value)
 
                 if value is None:
                     if schema.required:
@@ -344,6 +353,7 @@ class ConfigCodec:
 
             setattr(target_object, field, value)
 
+        setattr(target_object, _CONFIG_RAW_VALUES_FIELD, raw_values)
         if call_post_init and callable(post_init := getattr(target_object, '__post_init__', None)):
             post_init()
 
@@ -352,6 +362,7 @@ class ConfigCodec:
     def unparse(self, config_object: Any) -> _RAW_CONFIG_T:
         target_config = {}
         field_schema: Dict[str, ConfigField] = getattr(type(config_object), _CONFIG_SCHEMA_FIELD)
+        raw_values: Dict[str, Any] = getattr(config_object, _CONFIG_RAW_VALUES_FIELD, {})
 
         for field, schema in field_schema.items():
             value = getattr(config_object, field, None)
@@ -359,23 +370,35 @@ class ConfigCodec:
                 if schema.leftover:
                     _merge_keys(target_config, value)
                     continue
-                elif codec := schema.codec or self.field_codec_for_or_none(schema.type):
-                    try:
-                        value = codec.unparse(self, schema.type, value)
-                    except Exception as e:
-                        raise ValueError(
-                            f"could not unparse field '{field}' of expected type "
-                            f"'{schema.type}' from value {value}") from e
 
-                elif hasattr(schema.type, _CONFIG_SCHEMA_FIELD):
-                    value = self.unparse(value)
-                else:
-                    raise ValueError(f"no codec could be found for type: {schema.type}")
+                value = self._unparse_field(field, schema, value)
+                if field in raw_values and value == self._reunparse_field(field, schema, raw_values[field]):
+                    value = copy.deepcopy(raw_values[field])  # it was not changed, keep it as it was written
 
                 if value is not None:
                     _shove_key(target_config, schema.key or field, value)
         return target_config
 
+    def _unparse_field(self, field: str, schema: ConfigField, value: Any) -> Any:
+        if codec := schema.codec or self.field_codec_for_or_none(schema.type):
+            try:
+                return codec.unparse(self, schema.type, value)
+            except Exception as e:
+                raise ValueError(
+                    f"could not unparse field '{field}' of expected type "
+                    f"'{schema.type}' from value {value}") from e
+
+        raise ValueError(f"no codec could be found for type: {schema.type}")
+
+    def _reunparse_field(self, field: str, schema: ConfigField, raw_value: Any) -> Any:
+        if raw_value is None:
+            value = schema.default_factory() if schema.default_factory else schema.default
+        else:
+            codec = schema.codec or self.field_codec_for_or_none(schema.type)
+            value = codec.parse(self, schema.type, copy.deepcopy(raw_value))
+
+        return None if value is None else self._unparse_field(field, schema, value)
+
 
 @dataclass
 class ConfigField:
@@ -419,7 +442,7 @@ def config(cls: Type[_T] = None, *, io: ConfigIO = None) -> Type[_T]:
                     schema = ConfigField(default=schema)
 
                 setattr(cls_, field, schema.to_dataclass_field())  # remove before applying dataclass
-                schema.type = type_
+                schema.type = _unwrap_optional(type_)
                 config_schema[field] = schema
 
         for field, value in cls_.__dict__.items():
diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index c0710be..3f7c8c0 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -13,7 +13,8 @@ class TomlConfigIO(ConfigIO):
     def write(self, path: Path, data: _RAW_CONFIG_T):
         dumps = toml.dumps
         if path.exists():
-            _, dumps = toml.load(path)
+            old_data, dumps = toml.load(path)
+            data = _ordered_as(old_data, data)
 
         path.write_text(dumps(data))
 
@@ -22,6 +23,21 @@ class TomlConfigIO(ConfigIO):
         return data
 
 
+def _ordered_as(old_data: _RAW_CONFIG_T, data: _RAW_CONFIG_T) -> _RAW_CONFIG_T:
+    """
+    :return: `data`, where the keys that also exist in `old_data` appear first, in the order of `old_data`
+    """
+    result = type(data)()
+    for key in (*(k for k in old_data if k in data), *(k for k in data if k not in old_data)):
+        value, old_value = data[key], old_data.get(key)
+        is_section = isinstance(value, dict) and isinstance(old_value, dict)
+        result[key] = _ordered_as(old_value, value) if is_section else value
+
+    if isinstance(data, toml.Table):
+        result.style = data.style
+    return result
+
+
 class JsonConfigIO(ConfigIO):
 
     def write(self, path: Path, data: _RAW_CONFIG_T):
-- 
2.43.0


From ab54b25c1d073e0edf471cd977292d174aadfaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:22 +0000
Subject: [PATCH 068/122] fix: version bumps always move forward, unknown
 particles are refused, and a bumped project has its new version

---
 pkm/src/pkm/api/projects/project.py |  3 +++
 pkm/src/pkm/api/versions/version.py | 24 ++++++++++++------------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 46b8458..b86468b 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -173,6 +173,9 @@ class Project(Package, HasAttachedRepository, Serializable):
             new_version = version.bump(particle)
 
         self.config.project.version = new_version
+        self._descriptor = self.config.project.package_descriptor()
+        del self.published_metadata
+        self._compute_metadata = None
         if save:
             self.config.save()
         return new_version
diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 756de4a..e202b9b 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -172,19 +172,19 @@ class StandardVersion(Version):
                 return None
 
         def bump_pre_release(v: StandardVersion, p: str) -> Optional[Version]:
-            pre_release = v.pre_release
-            if pre_release:
-                if pre_release[0] > p:
-                    v = bump_release(v, 'patch')
-                    pre_release = None
-                elif pre_release[0] < p:
-                    pre_release = (p, 0)
-                else:
-                    pre_release = (p, pre_release[1] + 1)
-            else:
-                pre_release = (p, 0)
+            if p not in ('a', 'b', 'rc'):
+                return None
+
+            pre_release = (p, 0)
+            if v.pre_release and v.pre_release[0] == p:
+                pre_release = (p, v.pre_release[1] + 1)
+
+            bumped = replace(update_release(v, v.release), pre_release=pre_release)
+            if bumped > v:
+                return bumped
 
-            return replace(v, pre_release=pre_release)
+            # this release is already past the requested pre-release
+            return replace(bump_release(v, 'patch'), pre_release=(p, 0))
 
         new_version = bump_release(version, particle) or bump_pre_release(version, particle)
         if not new_version:
-- 
2.43.0


From 05fee56bf01e96a0f0d5c56ab2d344eb85971d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:08 +0000
Subject: [PATCH 069/122] fix: source archives carry the files their wheel
 needs at the places their project file says, wheels are tagged for the
 interpreters of the project, and directories of tools are not packaged

---
 pkm/src/pkm/api/distributions/distinfo.py     |  9 ++--
 .../api/distributions/wheel_distribution.py   | 11 +++--
 pkm/src/pkm/api/projects/project.py           |  9 +++-
 .../api/projects/pyproject_configuration.py   |  7 ++++
 pkm/src/pkm/build/pkm_app_builders.py         |  2 +-
 pkm/src/pkm/build/pkm_builders.py             | 42 ++++++++++++++-----
 6 files changed, 61 insertions(+), 19 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/distinfo.py b/pkm/src/pkm/api/distributions/distinfo.py
index 0da9ef9..36254de 100644
--- a/pkm/src/pkm/api/distributions/distinfo.py
+++ b/pkm/src/pkm/api/distributions/distinfo.py
@@ -4,7 +4,7 @@ import json
 import warnings
 from dataclasses import dataclass
 from pathlib import Path
-from typing import Optional, List, Iterable, Dict, Iterator, TYPE_CHECKING, Type
+from typing import Optional, List, Iterable, Dict, Iterator, Sequence, TYPE_CHECKING, Type
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.packages.package_installation_info import PackageInstallationInfo
@@ -249,8 +249,11 @@ class WheelFileConfiguration(ConfigFile):
             print(f'advanced wheel version: {self.version} detected, will be treated as version 1.0')
 
     @classmethod
-    def create(cls, generator: str, purelib: bool):
-        return WheelFileConfiguration(Version.parse("1.0"), generator, purelib)
+    def create(cls, generator: str, purelib: bool, tags: Sequence[str] = ()):
+        result = WheelFileConfiguration(Version.parse("1.0"), generator, purelib)
+        if tags:
+            result._leftovers = {'Tag': list(tags)}
+        return result
 
 
 class _RecordHashsignatureCodec(ConfigFieldCodec):
diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index ab40e16..1bfb48c 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -75,11 +75,16 @@ class WheelDistribution(Distribution):
         project_config = project.config.project
         req = project_config.requires_python
 
-        min_interpreter: StandardVersion = req.min \
-            if req and isinstance(req, StandardVersionRange) else \
-            StandardVersion((Environment.current().interpreter_version.release[0],))
+        current_major = Environment.current().interpreter_version.release[0]
+        min_interpreter: Optional[StandardVersion] = req.min if isinstance(req, StandardVersionRange) else None
+        if not min_interpreter:
+            min_interpreter = StandardVersion((current_major,))
 
         req_interpreter = 'py' + ''.join(str(it) for it in min_interpreter.release[:2])
+        if min_interpreter.release[0] < current_major \
+                and req.allows_any(StandardVersionRange(StandardVersion((current_major,)), None, True, None)):
+            req_interpreter += f'.py{current_major}'  # tags of older major versions are not supported by newer ones
+
         return f"{project.descriptor.expected_src_package_name}-{project.version}-{req_interpreter}-none-any.whl"
 
     @classmethod
diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index b86468b..565da4a 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import re
 import shutil
 from dataclasses import dataclass
 from pathlib import Path
@@ -356,6 +357,10 @@ class Project(Package, HasAttachedRepository, Serializable):
         return Project(pyproject, group=group)
 
 
+# directories that are created by different tools next to the source packages
+_NOT_A_PACKAGE_RX = re.compile(r'\..*|__pycache__|.*\.(egg|dist)-info')
+
+
 @dataclass()
 class ProjectDirectories:
     src_packages: List[Path]
@@ -390,7 +395,9 @@ class ProjectDirectories:
         else:
             if not (src_dir := project_path / 'src').exists():
                 src_dir = project_path
-            packages = [p for p in src_dir.iterdir() if p.is_dir()]
+            packages = [p for p in sorted(src_dir.iterdir()) if p.is_dir() and not _NOT_A_PACKAGE_RX.match(p.name)]
+            if src_dir == project_path:
+                packages = [p for p in packages if p.name not in ('dist', 'etc')]
 
         etc_pkm = project_path / 'etc' / 'pkm'
         etc_pkm.mkdir(parents=True, exist_ok=True)
diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 82b0d5d..571392b 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -200,6 +200,13 @@ class ProjectConfig:
     def package_descriptor(self) -> PackageDescriptor:
         return PackageDescriptor(self.name, self.version)
 
+    def referenced_files(self) -> List[Path]:
+        """
+        :return: the (readme and license) files that this configuration refers to
+        """
+        readme = self.readme.content if isinstance(self.readme, TypedContent) else self.readme
+        return [file for file in (readme, self.license) if isinstance(file, Path)]
+
     def readme_content(self) -> str:
         readme = self.readme.content if isinstance(self.readme, TypedContent) else self.readme
         if not readme:
diff --git a/pkm/src/pkm/build/pkm_app_builders.py b/pkm/src/pkm/build/pkm_app_builders.py
index 7465ec4..ac8124e 100644
--- a/pkm/src/pkm/build/pkm_app_builders.py
+++ b/pkm/src/pkm/build/pkm_app_builders.py
@@ -43,7 +43,7 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None,
         # build the actual wheel
         wheel_path = target_dir / WheelDistribution.expected_wheel_file_name(project)
         target_dir.mkdir(parents=True, exist_ok=True)
-        with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED) as wheel:
+        with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED, strict_timestamps=False) as wheel:
             build_dir = Path(target.purelib)
             for file in build_dir.rglob('*'):
                 wheel.write(file, file.relative_to(build_dir))
diff --git a/pkm/src/pkm/build/pkm_builders.py b/pkm/src/pkm/build/pkm_builders.py
index cf530d4..d424269 100644
--- a/pkm/src/pkm/build/pkm_builders.py
+++ b/pkm/src/pkm/build/pkm_builders.py
@@ -1,3 +1,4 @@
+import os
 import shutil
 import tarfile
 import zipfile
@@ -15,7 +16,7 @@ from pkm.api.environments.environment import Environment
 from pkm.api.packages.package_metadata import PackageMetadata
 from pkm.api.projects.project import ProjectDirectories, Project
 from pkm.api.projects.pyproject_configuration import ProjectConfig, PyProjectConfiguration
-from pkm.utils.files import temp_dir
+from pkm.utils.files import temp_dir, is_relative_to
 from pkm.utils.iterators import distinct
 
 
@@ -42,10 +43,13 @@ def build_sdist(project: Project, target_dir: Optional[Path] = None) -> Path:
         bc.pyproject.save(data_dir / 'pyproject.toml')
 
         if bc.pyproject.pkm_project.packages:
-            bc.copy_sources(data_dir)
+            bc.copy_sources(data_dir, keep_location=True)
         else:
+            (data_dir / 'src').mkdir()  # must exist, even if there are no packages, as it marks where they are
             bc.copy_sources(data_dir / 'src')
 
+        bc.copy_text_files(data_dir)
+
         with tarfile.open(sdist_path, 'w:gz', format=tarfile.PAX_FORMAT) as sdist:
             for file in data_dir.glob('*'):
                 sdist.add(file, file.relative_to(bc.build_dir))
@@ -87,7 +91,7 @@ def build_wheel(project: Project, target_dir: Optional[Path] = None, only_meta:
 
         wheel_path = target_dir / bc.wheel_file_name()
         target_dir.mkdir(parents=True, exist_ok=True)
-        with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED) as wheel:
+        with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED, strict_timestamps=False) as wheel:
             for file in bc.build_dir.rglob('*'):
                 wheel.write(file, file.relative_to(bc.build_dir))
 
@@ -96,12 +100,8 @@ def build_wheel(project: Project, target_dir: Optional[Path] = None, only_meta:
 
 @contextmanager
 def _build_context(project: Project) -> ContextManager["_BuildContext"]:
-    project_cfg: ProjectConfig = project.config.project
-
-    project_name_underscores = project_cfg.name.replace('-', '_')
-
     with temp_dir() as build_dir:
-        yield _BuildContext(project, build_dir, project_name_underscores)
+        yield _BuildContext(project, build_dir, project.descriptor.expected_src_package_name)
 
 
 @dataclass
@@ -134,10 +134,13 @@ class _BuildContext:
 
         PackageMetadata.from_project_config(project_config).save(di.metadata_path())
         di.license_path().write_text(
-            project_config.license_content())
+            project_config.license_content(), encoding='utf-8')
 
         # TODO: probably later we will want to add the version of pkm in the generator..
-        WheelFileConfiguration.create(generator="pkm", purelib=True).save(di.wheel_path())
+        interpreters, abi, platform = Path(self.wheel_file_name()).stem.split('-')[-3:]
+        WheelFileConfiguration.create(
+            generator="pkm", purelib=True, tags=[f"{it}-{abi}-{platform}" for it in interpreters.split('.')]
+        ).save(di.wheel_path())
 
         entrypoints = di.load_entrypoints_cfg()
         entrypoints.entrypoints = self.pyproject.project.all_entrypoints()
@@ -145,7 +148,21 @@ class _BuildContext:
 
         return di
 
-    def copy_sources(self, dst: Path, link_only: bool = False):
+    def copy_text_files(self, dst: Path):
+        """
+        copy the files that the project configuration refers to (e.g., readme and license) into the same relative
+        location in `dst`, files outside of the project are not copied
+        """
+        project_dir = self.project.path.resolve()
+        for file in self.pyproject.project.referenced_files():
+            file = (project_dir / file).resolve()
+            if file.is_file() and is_relative_to(file, project_dir):
+                destination = dst / file.relative_to(project_dir)
+                destination.parent.mkdir(parents=True, exist_ok=True)
+                if not destination.exists():
+                    shutil.copy(file, destination)
+
+    def copy_sources(self, dst: Path, link_only: bool = False, keep_location: bool = False):
         dirs = ProjectDirectories.create(self.pyproject)
 
         if link_only:
@@ -157,6 +174,9 @@ class _BuildContext:
 
         for package_dir in dirs.src_packages:
             destination = dst / package_dir.name
+            if keep_location and is_relative_to(package_dir, self.project.path):
+                destination = dst / os.path.relpath(package_dir, self.project.path)
+
             if package_dir.exists():
                 shutil.copytree(package_dir, destination, ignore=ignore_patterns('__pycache__'))
             else:
-- 
2.43.0


From 8ba991ca4b5b112a10dcb95c3cb2e0f61a455d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 070/122] fix: uploaded forms end with their closing boundary,
 are sent completely again when the connection fails, and carry names,
 classifiers and urls as the form standard and the index define them

---
 pkm/src/pkm/repositories/pypi_repository.py | 10 +++++--
 pkm/src/pkm/utils/http/mfd_payload.py       | 31 +++++++++++++++++----
 2 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index 5854f1a..1c66ace 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -140,6 +140,9 @@ def _create_artifact_from_pypi_release(release: Dict[str, Any]) -> Optional[Pack
     return PackageArtifact(file_name, requires_python_spec, release)
 
 
+_FORM_FIELD_BY_METADATA_FIELD = {'Classifier': 'classifiers', 'Project-URL': 'project_urls'}
+
+
 # https://warehouse.pypa.io/api-reference/legacy.html
 class PyPiPublisher(RepositoryPublisher):
 
@@ -154,9 +157,10 @@ class PyPiPublisher(RepositoryPublisher):
     def publish(self, auth_args: Dict[str, str], package_meta: PackageMetadata, distribution: Path):
         print(f"uploading distribution: {distribution}")
 
-        data = {k.replace('-', '_').lower(): v for k, v in package_meta.to_config().items()}
+        data = {_FORM_FIELD_BY_METADATA_FIELD.get(k, k.replace('-', '_').lower()): v
+                for k, v in package_meta.to_config().items()}
         file_type = 'bdist_wheel' if distribution.suffix == '.whl' else 'sdist'
-        py_version = distribution.name.split("-")[2] if distribution.suffix == '.whl' else 'source'
+        py_version = distribution.name.split("-")[-3] if distribution.suffix == '.whl' else 'source'
 
         md5, sha256, blake2 = hashlib.md5(), hashlib.sha256(), hashlib.blake2b(digest_size=256 // 8)
         with distribution.open('rb') as d_fd:
@@ -193,7 +197,7 @@ class PyPiPublisher(RepositoryPublisher):
                 ("Content-Type", payload.content_type()),
             ])
 
-            with self._http.post(f"{self._publish_url}/", payload, headers=headers,
+            with self._http.post(f"{self._publish_url.rstrip('/')}/", payload, headers=headers,
                                  max_redirects=0) as response:
                 if response.status != 200:
                     content = response.read()
diff --git a/pkm/src/pkm/utils/http/mfd_payload.py b/pkm/src/pkm/utils/http/mfd_payload.py
index 8404434..fa6d433 100644
--- a/pkm/src/pkm/utils/http/mfd_payload.py
+++ b/pkm/src/pkm/utils/http/mfd_payload.py
@@ -1,6 +1,6 @@
 import io
 import mimetypes
-from io import IOBase
+from io import IOBase, TextIOBase
 from typing import List, Optional, Iterator, Union, IO
 from uuid import uuid4
 
@@ -15,9 +15,10 @@ class FormField:
         self.name: str = name
         self.payload = payload
         self.filename = filename or name
-        filename_header_part = f'; filename="{filename}"' if filename else ""
+        filename_header_part = f'; filename="{_quote(filename)}"' if filename else ""
+        self._payload_start = payload.tell() if isinstance(payload, IOBase) and payload.seekable() else None
         self.headers = {
-            "Content-Disposition": f'form-data; name="{name}"{filename_header_part}',
+            "Content-Disposition": f'form-data; name="{_quote(name)}"{filename_header_part}',
             "Content-Type": _guess_content_type(filename)
         }
 
@@ -25,9 +26,16 @@ class FormField:
         self.headers["Content-Type"] = content_type
         return self
 
+    def rewind(self):
+        """
+        if possible, return the payload of this field to its initial position so that it can be read again
+        """
+        if self._payload_start is not None:
+            self.payload.seek(self._payload_start)
+
     # credits: this method is adapted from urllib3.fields.RequestField.render_headers
     def render(self) -> str:
-        lines = [f"{k}: {self.headers[k]}" for k in _FORM_FIELD_SORTED_HEADERS if k in self.headers]
+        lines = [f"{k}: {self.headers[k]}" for k in _FORM_FIELD_SORTED_HEADERS if self.headers.get(k)]
         lines.extend(f"{k}: {v}" for k, v in self.headers.items() if v and k not in _FORM_FIELD_SORTED_HEADERS)
         lines.append("\r\n")
         return "\r\n".join(lines)
@@ -49,12 +57,16 @@ class MultipartFormDataPayload:
         chunk_size = self._chunk_size
 
         for field in self._fields:
+            field.rewind()  # this payload may be sent again, e.g., after a connection failure
+
             yield boundary
             yield field.render().encode()
 
             payload = field.payload
-            if isinstance(payload, IOBase):
-                yield from chunks(payload, chunk_size)
+            if isinstance(payload, TextIOBase):
+                yield from (chunk.encode() for chunk in chunks(payload, chunk_size, reuse=False))
+            elif isinstance(payload, IOBase):
+                yield from chunks(payload, chunk_size, reuse=False)
             elif isinstance(payload, str):
                 yield payload.encode()
             elif isinstance(payload, bytes):
@@ -64,6 +76,13 @@ class MultipartFormDataPayload:
 
             yield newline
 
+        yield f"--{self._boundary}--\r\n".encode()
+
+
+def _quote(parameter: str) -> str:
+    # as defined for form data in the html standard
+    return parameter.replace('\r', '%0D').replace('\n', '%0A').replace('"', '%22')
+
 
 def _guess_content_type(filename: Optional[str], default="application/octet-stream"):
     if filename:
-- 
2.43.0


From df4f9ecf5f95120198ce2d08b1eaadbb3540ff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:30 +0000
Subject: [PATCH 071/122] fix: command lines bind exactly the values they give:
 empty values, key=value forms, repeated, typed and unbounded arguments,
 parents' contexts; conflicting or left over values are errors

---
 .../pkm_cli/api/dynamic_cli/command_parser.py | 106 ++++++++++++------
 .../pkm_cli/api/dynamic_cli/help_generator.py |   4 +-
 .../pkm_cli/api/dynamic_cli/method_parser.py  |  27 +++--
 3 files changed, 93 insertions(+), 44 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py b/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py
index 3817edb..80ab98a 100644
--- a/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py
+++ b/pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import inspect
 import re
 from abc import abstractmethod
+from contextlib import ExitStack
 from dataclasses import dataclass, field, replace
 from types import FunctionType, GeneratorType
 from typing import List, Protocol, Optional, Dict, Callable, TypeVar, Iterable, Any, Tuple, Union, Mapping, Literal, \
@@ -65,16 +66,18 @@ class Command:
         if self.parse_error:
             raise self.parse_error
 
-        parent_context = None
-        if self.parent and (parent_context := as_instance(self.parent.execute(), GeneratorType)):
-            next(parent_context, None)
-        try:
-            if (cmd_def := self.ast.command_def) and not cmd_def.dynamic:
-                return cmd_def.execution(self)
-            return None
-        finally:
-            if parent_context:
-                next(parent_context, None)
+        with ExitStack() as contexts:  # the contexts of all the parents stay open while this command executes
+            for parent in self.parents():
+                if context := as_instance(parent._run(), GeneratorType):
+                    next(context, None)
+                    contexts.callback(next, context, None)
+
+            return self._run()
+
+    def _run(self) -> Any:
+        if (cmd_def := self.ast.command_def) and not cmd_def.dynamic:
+            return cmd_def.execution(self)
+        return None
 
     def print_help(self):
         from pkm_cli.api.dynamic_cli.help_generator import generate_usage, generate_arguments_overview
@@ -142,12 +145,23 @@ class DefaultArgumentReader(ArgumentReader):
 
     def read(self, cmd: Command, argument: ArgumentDef, buf: ArgumentsBuffer) -> Any:
         v = buf.next_or_raise(f"value is expected for {argument.display_name}")
-        return self.type(v)
+        try:
+            return _read_bool(v) if self.type is bool else self.type(v)
+        except ValueError as e:
+            raise CommandParsingError(f"illegal value for argument {argument.display_name}: {v}") from e
 
     def value_hint(self) -> str:
         return camel_case_to_upper_snake_case(self.type.__name__)
 
 
+def _read_bool(v: str) -> bool:
+    if (lv := v.lower()) in ("true", "yes", "on", "1"):
+        return True
+    if lv in ("false", "no", "off", "0"):
+        return False
+    raise ValueError(f"not a boolean: {v}")
+
+
 _STR_ARG_READER = DefaultArgumentReader(str)
 
 
@@ -398,8 +412,9 @@ def command_definitions_from(env: Union[Iterable[Any], Dict[str, Any]]) -> List[
 
 class ArgumentsBuffer:
     def __init__(self, args: List[str], index: int = 0):
-        self._args = args
+        self._args = list(args)
         self._index = index
+        self._inline_value_index = -1
 
     def skip(self):
         self._index += 1
@@ -425,14 +440,20 @@ class ArgumentsBuffer:
         if not (option_ := self.peek_or_none()):
             raise CommandParsingError("option expected")
 
-        okey, _, oval = option_.partition("=")
-        if oval:
-            self._args[self._index] = oval.strip()
+        okey, eq, oval = option_.partition("=")
+        if eq:
+            self._args[self._index] = oval
+            self._inline_value_index = self._index
         else:
             self._index += 1
 
         return okey.strip()
 
+    def ensure_inline_value_used(self, key: str):
+        """fails if the last option that was read was given a value (key=value) which nothing consumed"""
+        if self._inline_value_index == self._index:
+            raise CommandParsingError(f"{key} does not accept a value")
+
     def remaining(self) -> int:
         return len(self._args) - self._index
 
@@ -484,7 +505,7 @@ class DynamicCommandLine:
     def _read_subfields(self, arg_def: ArgumentDef, value: Any) -> Any:
 
         if arg_def.fields_provider:
-            subfields = arg_def.fields_provider.provide(self._command, arg_def, value)
+            subfields = list(arg_def.fields_provider.provide(self._command, arg_def, value))
             for subfield in subfields:
                 if subfield.has_subfields():
                     raise UnsupportedOperationException(
@@ -493,11 +514,12 @@ class DynamicCommandLine:
 
             # noinspection PyDataclass
             new_arg_def = replace(arg_def, fields=subfields, fields_provider=None, reader=ConstantReader(str(value)))
-            ast = self._command.ast
-            self._command.ast = replace(
-                ast, command_def=replace(
-                    ast.command_def, arguments_def=[
-                        it if it is not arg_def else new_arg_def for it in ast.command_def.arguments_def]))
+            if not arg_def.is_multival():  # other values of a multi-valued argument may have other fields
+                ast = self._command.ast
+                self._command.ast = replace(
+                    ast, command_def=replace(
+                        ast.command_def, arguments_def=[
+                            it if it is not arg_def else new_arg_def for it in ast.command_def.arguments_def]))
             arg_def = new_arg_def
 
         if (subfields := arg_def.fields) is not None:
@@ -505,12 +527,21 @@ class DynamicCommandLine:
 
             subfields_map: Dict[str, ArgumentDef] = {name: it for it in subfields for name in it.defined_names}
 
-            while (next_ := self._buffer.peek_or_none()) and next_.startswith("+"):
+            while (next_ := self._buffer.peek_or_none()) is not None and next_.startswith("+"):
                 option_ = self._buffer.next_option_key()
                 if not (option_def := subfields_map.get(option_)):
                     raise CommandParsingError(f"unrecognized field: {option_} for target: {arg_def.display_name}")
 
-                value[option_def.field_name] = option_def.read_value(self._command, self._buffer)
+                field_value = option_def.read_value(self._command, self._buffer)
+                self._buffer.ensure_inline_value_used(option_)
+
+                if option_def.is_multival():
+                    get_or_put(value, option_def.field_name, list).append(field_value)
+                elif option_def.field_name in value and not option_def.is_flag():
+                    raise CommandParsingError(
+                        f"field {option_} was given more than once for target: {arg_def.display_name}")
+                else:
+                    value[option_def.field_name] = field_value
 
             for subfield in subfields:
                 if subfield.field_name not in value:
@@ -545,17 +576,20 @@ class DynamicCommandLine:
             self._expand_dynamic(dp)
 
     def _read_option_value(self, option_def: OptionDef) -> Any:
-        value = self._read_subfields(option_def, option_def.read_value(self._command, self._buffer))
+        value = option_def.read_value(self._command, self._buffer)
+        self._buffer.ensure_inline_value_used(option_def.display_name)
+        value = self._read_subfields(option_def, value)
 
         if option_def.repeatable:
             get_or_put(self._command.arguments, option_def.field_name, list).append(value)
+        elif option_def.field_name in self._command.arguments and not option_def.is_flag():
+            raise CommandParsingError(f"option {option_def.display_name} was given more than once")
         else:
             self._command.arguments[option_def.field_name] = value
 
     def _get_option(self, key: str) -> OptionDef:
         node = self._command.ast
         if not (option_def := node.options.get(key) or self._global_options.get(key)):
-            print(f"options: {node.options} as ast: {node.path} | cdef={node.command_def}")
             raise CommandParsingError(f"unknown option: {key}")
         return option_def
 
@@ -568,12 +602,17 @@ class DynamicCommandLine:
 
         elif next_.startswith("-"):
             need_value: Optional[OptionDef] = None
-            for option_ in next_[1:]:
+            if next_ == "-":
+                raise CommandParsingError(f"unknown option: {next_}")
+
+            for i, option_ in enumerate(next_[1:], start=2):
                 if need_value:
                     raise CommandParsingError(f"missing value for option {need_value.display_name}")
 
                 option_def = self._get_option(f"-{option_}")
                 if option_def.is_flag():
+                    if i == len(next_):
+                        self._buffer.ensure_inline_value_used(next_)
                     command_.arguments[option_def.field_name] = self._read_subfields(option_def, True)
                 else:
                     need_value = option_def
@@ -585,10 +624,10 @@ class DynamicCommandLine:
         self._expand_positional_dynamics()
 
         try:
-            while next_ := self._buffer.peek_or_none():
+            while (next_ := self._buffer.peek_or_none()) is not None:
                 node = self._command.ast
 
-                if next_.startswith("-"):  # long option
+                if next_.startswith("-") and next_ != "-":  # long option
                     self._read_option_or_flag()
                 elif next_.startswith("+"):
                     raise CommandParsingError(
@@ -626,6 +665,13 @@ class DynamicCommandLine:
         return self._command
 
     def finilize_command(self):
+        # validate that all positional arguments are assigned or set default
+        while (pi := self._positional_index) < len(self._command.ast.positional_args):
+            p = self._command.ast.positional_args[pi]
+            self._command.arguments[p.field_name] = self._generate_defaults_for(p)
+            self._positional_index += 1
+            self._expand_positional_dynamics()
+
         # validate mutex groups and fill in defaults for unset options and flags
         mutex = {}
         command_args = c.arguments_def if (c := self._command.ast.command_def) else ()
@@ -641,10 +687,6 @@ class DynamicCommandLine:
                     raise CommandParsingError(
                         f"these options are mutual exclusive: {argument_def.display_name}, {preassigned}")
                 mutex[argument_def.mutex_group] = argument_def.display_name
-        # validate that all positional arguments are assigned or set default
-        for pi in range(self._positional_index, len(self._command.ast.positional_args)):
-            p = self._command.ast.positional_args[pi]
-            self._command.arguments[p.field_name] = self._generate_defaults_for(p)
 
     @classmethod
     def create(cls, commands: List[CommandDef], args: Optional[List[str]] = None) -> DynamicCommandLine:
diff --git a/pkm-cli/src/pkm_cli/api/dynamic_cli/help_generator.py b/pkm-cli/src/pkm_cli/api/dynamic_cli/help_generator.py
index e574c9e..d4b0eff 100644
--- a/pkm-cli/src/pkm_cli/api/dynamic_cli/help_generator.py
+++ b/pkm-cli/src/pkm_cli/api/dynamic_cli/help_generator.py
@@ -116,9 +116,9 @@ def _create_option_usage_tokens(tokens: List[str], options: List[ArgumentDef]):
         tokens.append(f"[-{''.join(combined_flags_tokens)}]")
 
     for option_ in options:
-        option_short_name = option_.short_name()
+        option_short_name = option_.short_name() or option_.long_name()
         if val_hint := option_.reader.value_hint():
-            sep = " " if option_short_name.startswith("-") else "="
+            sep = "=" if option_short_name.startswith(("--", "+")) else " "
             option_str = f"{option_short_name}{sep}{val_hint}"
         else:
             option_str = f"{option_short_name}"
diff --git a/pkm-cli/src/pkm_cli/api/dynamic_cli/method_parser.py b/pkm-cli/src/pkm_cli/api/dynamic_cli/method_parser.py
index 5380e19..b055e1b 100644
--- a/pkm-cli/src/pkm_cli/api/dynamic_cli/method_parser.py
+++ b/pkm-cli/src/pkm_cli/api/dynamic_cli/method_parser.py
@@ -1,4 +1,5 @@
 import inspect
+import types as builtin_types
 import typing
 from collections import defaultdict
 from textwrap import dedent
@@ -11,8 +12,8 @@ from pkm_cli.api.dynamic_cli.command_parser import CommandDef, ArgumentDef, posi
 
 def _adjust_types(types: Dict[str, Type]) -> Dict[str, Type]:
     for arg, type_ in list(types.items()):
-        if type_ == typing.Union or typing.get_origin(type_) == typing.Union:
-            type_args = [t for t in typing.get_args(type_) if t.__name__ != 'NoneType']
+        if typing.get_origin(type_) in (typing.Union, getattr(builtin_types, "UnionType", typing.Union)):
+            type_args = [t for t in typing.get_args(type_) if t is not type(None)]
             if type_args:
                 types[arg] = type_args[0]
 
@@ -29,15 +30,18 @@ def fields_from_method(mtd: Func) -> List[OptionDef]:
     def field_name(arg_: str) -> str:
         return f"+{arg_.replace('_', '-')}"
 
-    for arg in args_spec.args:
+    arg_defaults = args_spec.defaults or ()
+    required_args_count = len(args_spec.args) - len(arg_defaults)
+    for i, arg in enumerate(args_spec.args):
+        default = MISSING if i < required_args_count else arg_defaults[i - required_args_count]
         fields.append(
-            option(field_name(arg), reader=arg_types.get(arg, str), help=doc.get(arg, "")))
+            option(field_name(arg), reader=arg_types.get(arg, str), default=default, help=doc.get(arg, "")))
 
     if arg := args_spec.varargs:
         fields.append(option(
-            field_name(arg), reader=arg_types.get(arg, str), repeatable=True, help=doc.get(arg, "")))
+            field_name(arg), reader=arg_types.get(arg, str), default=(), repeatable=True, help=doc.get(arg, "")))
 
-    kwdefaults = args_spec.kwonlydefaults
+    kwdefaults = args_spec.kwonlydefaults or {}
     missing = object()
     for kwarg in args_spec.kwonlyargs:
         kwarg_type = arg_types.get(kwarg, str)
@@ -74,9 +78,9 @@ def command_definition_from_method(mtd: Func, path: str = "") -> CommandDef:
 
     if arg := args_spec.varargs:
         cli_args.append(positional(
-            arg.replace("_", "-"), reader=arg_types.get(arg, str), n_values="*", help=doc.get(arg, "")))
+            arg.replace("_", "-"), reader=arg_types.get(arg, str), n_values="*", default=(), help=doc.get(arg, "")))
 
-    kwdefaults = args_spec.kwonlydefaults
+    kwdefaults = args_spec.kwonlydefaults or {}
     option_names = _generate_option_names(args_spec.kwonlyargs)
     missing = object()
     for kwarg in args_spec.kwonlyargs:
@@ -92,10 +96,13 @@ def command_definition_from_method(mtd: Func, path: str = "") -> CommandDef:
                 option_.default_value = kwarg_default
 
             cli_args.append(option_)
-    allowed_args = {it.field_name for it in cli_args}
 
     def execution(cmd: Command):
-        return mtd(**{k: v for k, v in cmd.arguments.items() if k in allowed_args})
+        values = cmd.arguments
+        return mtd(
+            *(values[arg_] for arg_ in args_spec.args),
+            *(values[args_spec.varargs] if args_spec.varargs else ()),
+            **{kwarg_: values[kwarg_] for kwarg_ in args_spec.kwonlyargs})
 
     desc = doc.get("", "")
     short_desc = _doc_to_short_desc(desc)
-- 
2.43.0


From 073efc05d6dcf9e73afea796a271a912a70088a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 072/122] fix: templates are rendered and checked completely
 before anything is written; local, nested and ignored files work; built-in
 templates write valid files

---
 .../pkm_cli/api/templates/template_runner.py  | 116 ++++++++++++------
 .../{{project_name}}/pyproject.toml.tmpl      |  10 +-
 .../{{environments_toml}}.tmpl                |   2 +-
 .../pkm/api/environments/environments_zoo.py  |   3 +-
 .../environments/installed_pythons_locator.py |  14 ++-
 5 files changed, 96 insertions(+), 49 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/api/templates/template_runner.py b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
index a038369..2dc6c38 100644
--- a/pkm-cli/src/pkm_cli/api/templates/template_runner.py
+++ b/pkm-cli/src/pkm_cli/api/templates/template_runner.py
@@ -3,19 +3,20 @@ from __future__ import annotations
 import importlib.util as iu
 import importlib.resources as ir
 import inspect
+import json
+import os
 import shutil
 from contextlib import contextmanager
 from importlib.machinery import ModuleSpec
 from pathlib import Path
 from types import ModuleType
-from typing import List, Any, Optional, ContextManager, Set, Mapping, Dict
+from typing import List, Any, Optional, ContextManager, Set, Mapping, Dict, Iterator, Tuple, Union
 
 import questionary as q
 from jinja2 import FileSystemLoader
 from jinja2.sandbox import SandboxedEnvironment
 
 from pkm.utils.commons import UnsupportedOperationException, IllegalStateException
-from pkm.utils.files import temp_dir
 from pkm.utils.properties import cached_property
 from pkm_cli.api.dynamic_cli.method_parser import command_definition_from_method
 from pkm_cli.api.dynamic_cli.command_parser import CommandDef, flag, Command
@@ -26,6 +27,7 @@ class TemplateRunner:
 
     def __init__(self):
         self.jinja_context = SandboxedEnvironment(loader=FileSystemLoader("/"))
+        self.jinja_context.filters["toml_string"] = lambda value: json.dumps(str(value), ensure_ascii=False)
 
     @staticmethod
     def templates_in_namespace() -> List[str]:
@@ -45,14 +47,15 @@ class TemplateRunner:
 
     @contextmanager
     def load_template(self, name: str) -> ContextManager[Template]:
+        for local_name in (name, name.replace('-', '_')):
+            local_template_file = Path(*local_name.split("."), "render.py")
+            if local_template_file.exists():
+                yield Template(iu.spec_from_file_location("render", local_template_file.resolve()), self)
+                return
+
         name = name.replace('-', '_')
         renderer_name = f"{name}.render"
 
-        local_template_file = Path(*name.split("."), "render.py")
-        if local_template_file.exists():
-            yield Template(iu.spec_from_file_location(str(local_template_file.resolve())), self)
-            return
-
         try:
             if template_spec := iu.find_spec(f"pkm_templates.{renderer_name}"):
                 yield Template(template_spec, self)
@@ -100,17 +103,20 @@ class Template:
 
         context = self._setup(args, module)
         ignored_files = self._load_ignored_files(self._template_dir)
-        if allow_overwrite:
-            self._render(self._template_dir, target_dir, context, ignored_files)
-        else:
-            with temp_dir() as tdir:
-                self._render(self._template_dir, tdir, context, ignored_files)
-                for file in tdir.rglob("*"):
-                    relative_file = file.relative_to(tdir)
-                    if (target_file := target_dir / relative_file).exists() and not target_file.is_dir():
-                        raise IOError(f"file already exists: {target_file}")
-
-                shutil.copytree(tdir, target_dir, dirs_exist_ok=True)
+
+        # everything is rendered and checked before the first file is written
+        rendered = list(self._render(self._template_dir, target_dir, context, ignored_files))
+        self._check_conflicts(rendered, allow_overwrite)
+        for target, content in rendered:
+            if content is None:
+                target.mkdir(parents=True, exist_ok=True)
+            else:
+                target.parent.mkdir(parents=True, exist_ok=True)
+                if isinstance(content, Path):
+                    shutil.copy(content, target)
+                else:
+                    target.write_text(content, encoding="utf-8")
+
         if callable(post_render := getattr(module, "post_render", None)):
             post_render(context)
 
@@ -121,7 +127,7 @@ class Template:
 
         if ignore_file.exists():
             lines = ignore_file.read_text().splitlines()
-            result = {f.resolve() for line in lines if line.strip() for f in template_root.glob(line)}
+            result.update(f for line in lines if line.strip() for f in template_root.glob(line.strip()))
 
         for sub_dir in template_root.iterdir():
             if sub_dir.is_dir():
@@ -129,7 +135,13 @@ class Template:
 
         return result
 
-    def _render(self, template_dir: Path, target_dir: Path, context: Mapping, ignored_files: Set[Path]):
+    def _render(
+            self, template_dir: Path, target_dir: Path, context: Mapping, ignored_files: Set[Path]
+    ) -> Iterator[Tuple[Path, Union[None, str, Path]]]:
+        """
+        :return: the paths that this template creates, each one with its content:
+                 rendered text, a file to copy or None (if it is a directory)
+        """
 
         jinja = self._runner.jinja_context
 
@@ -139,29 +151,62 @@ class Template:
 
             name = jinja.from_string(template_child.name).render(context)
 
+            is_rendered = template_child.suffix == ".tmpl" and template_child.is_file()
+            if is_rendered:
+                name = name[:-len(".tmpl")]
+
             if not name:  # empty names indicate unneeded files
                 continue
 
-            target_child = (target_dir / name).resolve()
-
-            if not target_child.parent.exists():
-                target_child.parent.mkdir(parents=True)
+            target_child = target_dir / name
+            if target_child.name not in ("", ".."):
+                target_child = target_child.parent.resolve() / target_child.name
+            else:
+                target_child = target_child.resolve()
 
             if template_child.is_dir():
+                yield target_child, None
                 if (template_child / ".templatepreserve").exists():
-                    shutil.copytree(str(template_child.absolute()), str(target_child.absolute()))
-                    return
-
-                target_child.mkdir(exist_ok=True)
-                self._render(template_child, target_child, context, ignored_files)
-            elif target_child.suffix == ".tmpl":
-                with target_child.with_suffix("").open("w") as f:
-                    jinja.from_string(template_child.read_text()).stream(context).dump(f)
+                    for file in template_child.rglob("*"):
+                        yield target_child / file.relative_to(template_child), None if file.is_dir() else file
+                else:
+                    yield from self._render(template_child, target_child, context, ignored_files)
+            elif is_rendered:
+                yield target_child, jinja.from_string(template_child.read_text(encoding="utf-8")).render(context)
+            else:
+                yield target_child, template_child
+
+    def _check_conflicts(self, rendered: List[Tuple[Path, Union[None, str, Path]]], allow_overwrite: bool):
+        files: Set[Path] = set()
+        directories: Set[Path] = set()
+        for target, content in rendered:
+            directories.update(target.parents)
+            if content is None:
+                directories.add(target)
+            elif target in files:
+                raise IOError(f"several files of the template have the same target: {target}")
             else:
-                shutil.copy(template_child, target_child)
+                files.add(target)
+
+        for directory in directories:
+            if directory in files:
+                raise IOError(f"a file and a directory of the template have the same target: {directory}")
+            if os.path.lexists(directory) and not directory.is_dir():
+                raise IOError(f"file already exists: {directory}")
+
+        for file in files:
+            if file.is_dir():
+                raise IOError(f"directory already exists: {file}")
+            if not allow_overwrite and os.path.lexists(file):
+                raise IOError(f"file already exists: {file}")
 
     def _setup(self, args: Dict[str, Any], module: ModuleType) -> Mapping:
-        result = module.setup(**args)
+        args, positionals = dict(args), []
+        spec = inspect.getfullargspec(module.setup)
+        if spec.varargs in args:
+            positionals = [*(args.pop(arg) for arg in spec.args), *args.pop(spec.varargs)]
+
+        result = module.setup(*positionals, **args)
         if not isinstance(result, Mapping):
             raise IllegalStateException(
                 f"invalid return value from template setup function (dict is required, got {type(result)})")
@@ -191,8 +236,7 @@ class _TemplateExtendedBuiltins:
         self._allow_overwrite = None
 
     def render_template(self, name: str, **kwargs):
-        # noinspection PyProtectedMember
-        with self._runner._load_template(name) as t:
+        with self._runner.load_template(name) as t:
             t.execute(self._target_dir, kwargs, self._allow_overwrite)
 
     def confirm(self, prompt: str, default: bool = True) -> bool:
diff --git a/pkm-cli/src/pkm_templates/project/{{project_name}}/pyproject.toml.tmpl b/pkm-cli/src/pkm_templates/project/{{project_name}}/pyproject.toml.tmpl
index b9de7cb..6ca19f0 100644
--- a/pkm-cli/src/pkm_templates/project/{{project_name}}/pyproject.toml.tmpl
+++ b/pkm-cli/src/pkm_templates/project/{{project_name}}/pyproject.toml.tmpl
@@ -1,11 +1,11 @@
 [project]
-name = "{{project_name}}"
-version = "{{version}}"
-description = "{{description}}"
+name = {{project_name|toml_string}}
+version = {{version|toml_string}}
+description = {{description|toml_string}}
 readme = "README.{{readme_file_ext}}"
 requires-python= "~={{required_python}}"
-authors = [{name="{{author}}"}]
-license.text = "{{license}}"
+authors = [{name={{author|toml_string}}}]
+license.text = {{license_text|toml_string}}
 dependencies = []
 
 [build-system]
diff --git a/pkm-cli/src/pkm_templates/project_from_env/{{environments_toml}}.tmpl b/pkm-cli/src/pkm_templates/project_from_env/{{environments_toml}}.tmpl
index 8fbff68..c0df609 100644
--- a/pkm-cli/src/pkm_templates/project_from_env/{{environments_toml}}.tmpl
+++ b/pkm-cli/src/pkm_templates/project_from_env/{{environments_toml}}.tmpl
@@ -1,2 +1,2 @@
 [attached-env]
-path = "{{env_path}}"
\ No newline at end of file
+path = {{env_path|toml_string}}
\ No newline at end of file
diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index dfc264d..5b32579 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -137,4 +137,5 @@ class PackageSharingConfig:
 
 @config(io=TomlConfigIO())
 class EnvironmentZooConfiguration(ConfigFile):
-    package_sharing: PackageSharingConfig
+    package_sharing: PackageSharingConfig = config_field(
+        key="package-sharing", default_factory=PackageSharingConfig)
diff --git a/pkm/src/pkm/api/environments/installed_pythons_locator.py b/pkm/src/pkm/api/environments/installed_pythons_locator.py
index 19167da..2d427b6 100644
--- a/pkm/src/pkm/api/environments/installed_pythons_locator.py
+++ b/pkm/src/pkm/api/environments/installed_pythons_locator.py
@@ -53,7 +53,7 @@ class InstalledPythonsLocator:
                     executable,
                     PackageDescriptor("python", Version.parse(version_str.strip()))))
 
-            except (ChildProcessError, CalledProcessError):
+            except (OSError, ValueError, CalledProcessError):
                 # import traceback
                 # traceback.print_exc()
                 pass  # skip this interpreter
@@ -89,11 +89,11 @@ _PYTHON_EXEC_RX = re.compile(r"python-?[\d.]*(.exe)?")
 
 
 def _as_python_executeable(file: Path) -> Optional[Path]:
-    if (not file.is_dir()) and _PYTHON_EXEC_RX.fullmatch(file.name.lower()) and is_executable(file):
-        try:
+    try:
+        if _PYTHON_EXEC_RX.fullmatch(file.name.lower()) and (not file.is_dir()) and is_executable(file):
             return file.resolve()
-        except:  # noqa
-            pass
+    except:  # noqa
+        pass
     return None
 
 
@@ -106,7 +106,9 @@ def _lookup_in_path(path: Path):
 
 
 def _lookup_in_env_path() -> Set[Path]:
-    path_parts = [path for it in (os.environ.get("PATH") or "").split(os.pathsep) if (path := Path(it)).exists()]
+    path_parts = [
+        path for it in (os.environ.get("PATH") or "").split(os.pathsep)
+        if os.path.isdir(it) and os.access(path := Path(it), os.R_OK | os.X_OK)]
 
     return {
         executable
-- 
2.43.0


From 5f77a69e6fc5228711b3383469feda5f44f6658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 073/122] fix: a wrong password leaves the publishing store
 locked, and a failed save leaves it as it was

---
 .../src/pkm_cli/auth/publish_auth_store.py    | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/auth/publish_auth_store.py b/pkm-cli/src/pkm_cli/auth/publish_auth_store.py
index 629fb59..e3e51b3 100644
--- a/pkm-cli/src/pkm_cli/auth/publish_auth_store.py
+++ b/pkm-cli/src/pkm_cli/auth/publish_auth_store.py
@@ -1,4 +1,5 @@
 import base64
+import os
 from pathlib import Path
 from typing import Dict, Optional, Any
 
@@ -48,9 +49,9 @@ class PublishAuthenticationStore:
         else:
             if not password:
                 password = Display.ask_password("Please provide the authentication store password")
-            self._cipher = _make_cipher(password)
+            cipher = _make_cipher(password)
             try:
-                configuration_str = self._cipher.decrypt(configuration_path.read_bytes()).decode()
+                configuration_str = cipher.decrypt(configuration_path.read_bytes()).decode()
             except InvalidToken:
                 configuration_str = ""
             if not configuration_str.startswith(_PA_MAGIC):
@@ -58,6 +59,7 @@ class PublishAuthenticationStore:
 
             configuration, _ = toml.loads(configuration_str[len(_PA_MAGIC):])
             self._unlocked_configuration = configuration
+            self._cipher = cipher
 
     def is_unlocked(self):
         return self._cipher is not None
@@ -73,18 +75,28 @@ class PublishAuthenticationStore:
         self._ensure_unlocked()
         return self._unlocked_configuration.get(repository_name)
 
-    def _save(self):
+    def _save(self, configuration: Dict[str, Any]):
         configuration_path = self.configuration_path
         mkdir(configuration_path.parent)
-        configuration_str = _PA_MAGIC + toml.dumps(self._unlocked_configuration)
-        configuration_path.write_bytes(self._cipher.encrypt(configuration_str.encode()))
+        configuration_str = _PA_MAGIC + toml.dumps(configuration)
+
+        # the store is replaced only once it was completely written
+        new_configuration_path = configuration_path.with_name(configuration_path.name + ".new")
+        try:
+            new_configuration_path.write_bytes(self._cipher.encrypt(configuration_str.encode()))
+            os.replace(new_configuration_path, configuration_path)
+        except BaseException:
+            new_configuration_path.unlink(missing_ok=True)
+            raise
+
+        self._unlocked_configuration = configuration
 
     def add_auth_args(self, repository_name: str, args: Dict[str, str]):
         self._ensure_unlocked()
-        self._unlocked_configuration[repository_name] = args
-        self._save()
+        self._save({**self._unlocked_configuration, repository_name: args})
 
     def rm_auth_args(self, repository_name: str):
         self._ensure_unlocked()
-        del self._unlocked_configuration[repository_name]
-        self._save()
+        configuration = dict(self._unlocked_configuration)
+        del configuration[repository_name]
+        self._save(configuration)
-- 
2.43.0


From b3c5ece84bbdea98313c05a50d118a78eb4bb73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:42 +0000
Subject: [PATCH 074/122] fix: packages installed in parallel do not disturb
 each other; requests with markers can be handed to worker processes

---
 pkm/src/pkm/api/dependencies/env_markers.py |  6 +++
 pkm/src/pkm/utils/files.py                  | 58 ++++++++++++++++++---
 pkm/src/pkm/utils/multiproc/__init__.py     | 18 +++----
 3 files changed, 65 insertions(+), 17 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index 9dd28b7..8dd4051 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -46,6 +46,12 @@ class EnvironmentMarker:
         self._expr = expr
         self._exec = exec
 
+    def __getstate__(self) -> str:  # the parsed predicate itself cannot be pickled
+        return self._expr
+
+    def __setstate__(self, expr: str):
+        self.__init__(expr, PEP508EnvMarkerParser(expr).read_marker()._exec)
+
     def __eq__(self, other) -> bool:
         return isinstance(other, EnvironmentMarker) and self._expr == other._expr
 
diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index fae827a..29dc726 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -1,11 +1,12 @@
 from __future__ import annotations
 
+import contextlib
 import os
 import shutil
 from contextlib import contextmanager
 from pathlib import Path
 from tempfile import mkdtemp
-from typing import Optional, Callable, ContextManager, Iterator, List, Set, Tuple
+from typing import Any, Optional, Callable, ContextManager, Iterator, List, Set, Tuple
 
 from pkm.utils.commons import UnsupportedOperationException
 
@@ -116,6 +117,9 @@ def name_without_ext(path: Path) -> str:
         return name
 
 
+_REMOVED_DIRECTORY = Path("")  # marks the removal of an empty directory in the changes of a transaction
+
+
 class CopyTransaction:
     """
     a context manager for copy transactions,
@@ -144,7 +148,7 @@ class CopyTransaction:
 
         if file_copy:
             def cp(s, d):
-                file_copy(s, self.overwrite(d))
+                self._write(d, lambda: file_copy(s, d))
         else:
             cp = self.copy
 
@@ -164,11 +168,19 @@ class CopyTransaction:
         :param target: the directory path to create
         :return `target` to be used with chaining
         """
-        if not target.exists():
+        while not target.exists():
             if not target.parent.exists():
                 self.mkdir(target.parent)
-            target.mkdir()
-            self.touch(target)
+            try:
+                target.mkdir()
+            except FileExistsError:  # created by another transaction in the meantime
+                if not target.is_dir():
+                    raise
+            except FileNotFoundError:  # the parent was removed by another transaction in the meantime
+                if os.path.lexists(target.parent):
+                    raise
+            else:
+                self.touch(target)
 
         return target
 
@@ -181,7 +193,18 @@ class CopyTransaction:
         if source.is_dir():
             raise UnsupportedOperationException("copy should not work with directories, use copy_tree or mkdir instead")
 
-        shutil.copy(source, self.overwrite(target))
+        self._write(target, lambda: shutil.copy(source, target))
+
+    def _write(self, target: Path, write: Callable[[], Any]):
+        self.overwrite(target)
+        while True:
+            try:
+                write()
+                return
+            except FileNotFoundError:
+                if os.path.lexists(target.parent):
+                    raise
+                self.mkdir(target.parent)  # it was removed by another transaction in the meantime, when it was empty
 
     def overwrite(self, target: Path) -> Path:
         """
@@ -242,6 +265,21 @@ class CopyTransaction:
         self._changes.append((path, temp))
         self._copied_files = {it for it in self._copied_files if it != path and path not in it.parents}
 
+    def rmdir(self, path: Path) -> bool:
+        """
+        remove the given directory if it is empty (rollback supported operation)
+        :param path: the directory to remove
+        :return: True if it was removed, False if it is not empty (or does not exist)
+        """
+        try:
+            path.rmdir()
+        except OSError:
+            return False
+
+        self._changes.append((path, _REMOVED_DIRECTORY))
+        self._copied_files.discard(path)
+        return True
+
     def __enter__(self) -> CopyTransaction:
         self._temp_dir = Path(mkdtemp())
         return self
@@ -260,11 +298,15 @@ class CopyTransaction:
 
     def _rollback(self):
         for path, moved_to in reversed(self._changes):
-            if moved_to:
+            if moved_to is _REMOVED_DIRECTORY:
+                path.mkdir(exist_ok=True)
+            elif moved_to:
+                # the directory may have been removed by another transaction when it became empty
+                path.parent.mkdir(parents=True, exist_ok=True)
                 shutil.move(moved_to, path)
             elif path.is_dir() and not path.is_symlink():
                 # children are usually removed before, those that were not are not part of this transaction
-                if is_empty_directory(path):
+                with contextlib.suppress(OSError):
                     path.rmdir()
             elif os.path.lexists(path):
                 path.unlink()
diff --git a/pkm/src/pkm/utils/multiproc/__init__.py b/pkm/src/pkm/utils/multiproc/__init__.py
index bb410c9..8dce10f 100644
--- a/pkm/src/pkm/utils/multiproc/__init__.py
+++ b/pkm/src/pkm/utils/multiproc/__init__.py
@@ -84,8 +84,8 @@ class _Worker:
         while True:
             cmd: _Command = pickle.load(self._stdin)
             try:
-                result = cmd.execute()
-                pickle.dump(_CommandResult(result), self._stderr)
+                result_data = pickle.dumps(_CommandResult(cmd.execute()))
+                self._stderr.write(result_data)
                 self._stderr.flush()
             except Exception as e:  # noqa
                 err_strace = StringIO()
@@ -142,7 +142,9 @@ class _WorkerHandler:
 
                 try:
                     if task_result.attach_worker(self):
-                        pickle.dump(next_task, self._proc.stdin)
+                        # pickle before writing, a partially written task would break the worker for the next tasks
+                        task_data = pickle.dumps(next_task)
+                        self._proc.stdin.write(task_data)
                         self._proc.stdin.flush()
 
                         proc_result: _CommandResult = pickle.load(self._proc.stderr)
@@ -205,13 +207,11 @@ class _TaskResult:
         return True
 
     def _on_cancel(self) -> bool:
-        if self._canceled or self.deferred.promise().is_completed():
-            with self._lock:
+        with self._lock:
+            if not self._attached_worker:
                 self._canceled = True
-                if self._attached_worker:
-                    self._attached_worker.kill()
-
-        return True
+            # a task that a worker already took is left to complete, its worker may already execute another task
+            return self._canceled
 
 
 class ProcessPoolExecutor(Closeable):
-- 
2.43.0


From 99129e5bf2eecf1f6caf2e0e65676fd065b5bb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:45 +0000
Subject: [PATCH 075/122] fix: installing, updating and uninstalling keep every
 request and dependency satisfied, whatever the spelling, and leave no orphans

---
 .../pkm/api/packages/package_installation.py  | 90 +++++++++++++------
 pkm/src/pkm/api/packages/site_packages.py     | 31 ++++---
 2 files changed, 80 insertions(+), 41 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 83f1ca1..889b8b7 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -1,12 +1,11 @@
 from __future__ import annotations
 
-from _ast import Set
 from abc import ABC
 from concurrent.futures import ThreadPoolExecutor
 from dataclasses import dataclass
 from enum import Enum
 from pathlib import Path
-from typing import List, Dict, Optional, Union, Set, TYPE_CHECKING
+from typing import List, Dict, Iterable, Optional, Union, Set, TYPE_CHECKING
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.packages.package_installation_info import StoreMode
@@ -73,9 +72,13 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         self.reload()
 
         preinstalled_packages = list(self.site_packages.installed_packages())
-        requested_deps = {p.name: p.user_request for p in preinstalled_packages if p.user_request}
-        for package_name in packages_to_remove:
-            requested_deps.pop(package_name, None)
+        requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request}
+        names_to_remove = {
+            package_name: PackageDescriptor.package_name_key(package_name) for package_name in packages_to_remove
+            if self.site_packages.installed_package(package_name)}
+
+        for name_key in names_to_remove.values():
+            requested_deps.pop(name_key, None)
 
         user_request = _UserRequestPackage(list(requested_deps.values()))
         installation_repo = _RemovalRepository(preinstalled_packages, user_request)
@@ -83,14 +86,14 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         installation = resolve_dependencies(user_request.to_dependency(), self, installation_repo)
         InstallationPlan(self, installation, {}).execute()
 
-        kept = {p.name for p in installation}
+        kept = {p.name_key for p in installation}
 
-        for p in packages_to_remove:
-            if p in kept:
-                self.site_packages.installed_package(p).dist_info.unmark_as_user_requested()
+        for package_name, name_key in names_to_remove.items():
+            if name_key in kept:
+                self.site_packages.installed_package(package_name).dist_info.unmark_as_user_requested()
 
         self.reload()
-        return {p for p in packages_to_remove if p not in kept}
+        return {package_name for package_name, name_key in names_to_remove.items() if name_key not in kept}
 
     def install(
             self, dependencies: List[Dependency], repository: Optional[Repository] = None, user_requested: bool = True,
@@ -146,18 +149,33 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
 
         self.reload()
 
-        updates = set(updates or ())
-        preinstalled_packages = [p for p in self.site_packages.installed_packages() if p.name_key not in updates]
-        pre_requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request}
+        updates = {PackageDescriptor.package_name_key(it) for it in updates or ()}
+        installed_packages = {p.name_key: p for p in self.site_packages.installed_packages()}
+        preinstalled_packages = [p for name_key, p in installed_packages.items() if name_key not in updates]
+        pre_requested_deps = {
+            name_key: p.user_request for name_key, p in installed_packages.items() if p.user_request}
+
+        dependencies = [d for d in dependencies if d.is_applicable_for(self.env, [])]
         unspecified_spec_packages = \
             unspecified_spec_packages or [
                 d.package_name_key
                 for d in dependencies if d.version_spec is AllowAllVersions]
 
-        unspecified_spec_packages = set(unspecified_spec_packages)
+        unspecified_spec_packages = {PackageDescriptor.package_name_key(it) for it in unspecified_spec_packages}
+
+        new_deps: Dict[str, Dependency] = {}
+        for d in dependencies:
+            other = new_deps.get(d.package_name_key)
+            new_deps[d.package_name_key] = _merge_requests(other, d) if other else d
 
-        new_deps = {d.package_name_key: d for d in dependencies}
         all_deps = {**pre_requested_deps, **new_deps}
+        all_requests = [d for name_key, d in pre_requested_deps.items() if name_key not in new_deps] + dependencies
+
+        # requests that may change the version or the dependencies of an installed package
+        changing_installed = any(name_key in installed_packages for name_key in updates) or any(
+            d.extras and not set(d.extras) <= set(all_deps[name_key].extras or ())
+            for name_key, d in pre_requested_deps.items())
+        orphans = {p.name_key for p in self.site_packages.find_orphan_packages()}
 
         run_slow_path = False
         installation = None
@@ -165,7 +183,7 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         try:
             # first we try the fast path: only adding packages without updating
             # but requiring latest matching versions of new user requested packages
-            user_request = _UserRequestPackage(list(new_deps.values()))
+            user_request = _UserRequestPackage(all_requests if changing_installed else dependencies)
             installation_repo = _InstallationRepository(
                 repository, preinstalled_packages, user_request, unspecified_spec_packages, True)
 
@@ -174,7 +192,8 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
 
             installation_names = {i.name_key for i in installation}
             for preinstalled in preinstalled_packages:
-                if preinstalled.name_key not in installation_names:
+                if preinstalled.name_key not in installation_names \
+                        and (not changing_installed or preinstalled.name_key in orphans):
                     installation.append(preinstalled)
 
         except UnsolvableProblemException:
@@ -183,11 +202,11 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
 
         if run_slow_path:
             # if we cannot we try the slow path in which we allow preinstalled packages dependencies to be updated
-            user_request = _UserRequestPackage(list(all_deps.values()))
+            user_request = _UserRequestPackage(all_requests)
             installation_repo = _InstallationRepository(
-                repository, preinstalled_packages, user_request, unspecified_spec_packages, False)
+                repository, list(installed_packages.values()), user_request, unspecified_spec_packages, False, updates)
             installation = resolve_dependencies(
-                user_request.to_dependency(), self, installation_repo)
+                user_request.to_dependency(), self, installation_repo, dependencies_override)
 
         user_requests = {**pre_requested_deps}
         if user_requested:
@@ -196,6 +215,14 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         return InstallationPlan(self, installation, user_requests)
 
 
+def _merge_requests(a: Dependency, b: Dependency) -> Dependency:
+    """
+    :return: the request for what both `a` and `b`, requests of the same package, ask for
+    """
+    extras = [*(a.extras or ()), *(it for it in (b.extras or ()) if it not in (a.extras or ()))]
+    return Dependency(a.package_name, a.version_spec.intersect_with(b.version_spec), extras or None)
+
+
 class PackageOperation(Enum):
     INSTALL = "install"
     UPDATE = "update"
@@ -211,6 +238,10 @@ class InstallationPlan:
         self.user_requests = user_requests
         self.store_modes: Optional[Dict[str, StoreMode]] = None
 
+    def _store_modes_by_name_key(self) -> Dict[str, StoreMode]:
+        return {
+            PackageDescriptor.package_name_key(name): value for name, value in (self.store_modes or {}).items()}
+
     def selected_package(self, name: str) -> Optional[Package]:
         name_key = PackageDescriptor.package_name_key(name)
         return first_or_none(it for it in self.packages if it.name_key == name_key)
@@ -231,7 +262,7 @@ class InstallationPlan:
             for p in self.packages
             if not isinstance(p, _UserRequestPackage)}
 
-        store_modes = {name: value for name, value in (self.store_modes or {}).items()}
+        store_modes = self._store_modes_by_name_key()
 
         for name_key, package_to_install in toinstall.items():
 
@@ -275,7 +306,7 @@ class InstallationPlan:
 
         target = target or self.default_target
         operations = self.compute_operations_for_target(target)
-        store_modes = self.store_modes or {}
+        store_modes = self._store_modes_by_name_key()
         site = target.site_packages
 
         tasks: List[_PackageOperationTask] = []
@@ -416,13 +447,14 @@ class _RemovalPackage(Package, Serializable):
 class _InstallationRepository(Repository, ABC):
     def __init__(
             self, repo: Repository, installed_packages: List[InstalledPackage], user_request: Package,
-            unspecified_spec_packages: Set[str], fast_plan_mode: bool):
+            unspecified_spec_packages: Set[str], fast_plan_mode: bool, updates: Iterable[str] = ()):
 
         assert repo, "no repository provided"
         self._user_request = user_request
         self._installed_packages: Dict[str, InstalledPackage] = {p.name_key: p for p in installed_packages}
         self._fast_plan_mode = fast_plan_mode
         self._unspecified_spec_packages = unspecified_spec_packages
+        self._updates = set(updates)
         self._repo = repo
 
     def match(self, dependency: Union["Dependency", str], env: Environment) -> List[Package]:
@@ -435,12 +467,16 @@ class _InstallationRepository(Repository, ABC):
         if installed := self._installed_packages.get(dependency.package_name_key):
             # installed = _UpdatableInstalledPackage(installed, self._repo)
             if self._fast_plan_mode:
-                return [installed]
+                return [installed] if dependency.version_spec.allows_version(installed.version) else []
 
-        packages = self._repo.match(dependency, env)
+        packages = list(self._repo.match(dependency, env))
         if installed:
-            packages.sort(key=lambda it: 0 if installed.version == it.version else 1)
-        elif self._fast_plan_mode and dependency.package_name_key in self._unspecified_spec_packages:
+            if dependency.version_spec.allows_version(installed.version) \
+                    and not any(it.version == installed.version for it in packages):
+                packages.append(installed)  # the installed version can be kept even if it cannot be fetched anymore
+            if dependency.package_name_key not in self._updates:
+                packages.sort(key=lambda it: 0 if installed.version == it.version else 1)
+        elif packages and self._fast_plan_mode and dependency.package_name_key in self._unspecified_spec_packages:
             max_version_package = max(packages, key=lambda it: it.version)
             if not isinstance(max_version_package.version, StandardVersion):
                 unspecified_limit = VersionMatch(max_version_package.version)
diff --git a/pkm/src/pkm/api/packages/site_packages.py b/pkm/src/pkm/api/packages/site_packages.py
index 9951e30..ac161bb 100644
--- a/pkm/src/pkm/api/packages/site_packages.py
+++ b/pkm/src/pkm/api/packages/site_packages.py
@@ -13,7 +13,7 @@ from pkm.api.packages.package_installation_info import StoreMode, PackageInstall
 from pkm.api.packages.package_metadata import PackageMetadata
 from pkm.api.versions.version_specifiers import VersionMatch
 from pkm.utils.dicts import put_if_absent
-from pkm.utils.files import CopyTransaction, is_empty_directory, is_relative_to
+from pkm.utils.files import CopyTransaction, is_relative_to
 from pkm.utils.types import Serializable
 from pkm.utils.properties import cached_property, clear_cached_properties
 from pkm.utils.sequences import pop_or_none
@@ -102,20 +102,21 @@ class SitePackages(Serializable):
 
     def find_orphan_packages(self) -> Iterable[InstalledPackage]:
         installed = self.installed_packages()
-        requested = [p for p in installed if p.user_request is not None]
+        required = [(p, frozenset(p.user_request.extras or ())) for p in installed if p.user_request is not None]
         orphans = {p.name_key: p for p in installed}
         done = set()
 
-        while next_ := pop_or_none(requested):
-            name = next_.name_key
-            if not add_if_absent(done, name):
+        while next_ := pop_or_none(required):
+            package, extras = next_
+            if not add_if_absent(done, (package.name_key, extras)):
                 continue
 
-            orphans.pop(name, None)
+            orphans.pop(package.name_key, None)
 
-            requested.extend(
-                i for d in next_.published_metadata.dependencies
-                if (i := self.installed_package(d.package_name)) is not None)
+            required.extend(
+                (i, frozenset(d.extras or ())) for d in package.published_metadata.dependencies
+                if d.is_applicable_for(self.env, list(extras))
+                and (i := self.installed_package(d.package_name)) is not None)
 
         return orphans.values()
 
@@ -251,7 +252,12 @@ class InstalledPackage(Package, Serializable):
             if installed_file.suffix == '.py' and (cache := installed_file.parent / "__pycache__").exists():
                 parents_to_check.add(cache)
                 precompiled_rx = re.compile(f"{re.escape(installed_file.stem)}\\.[^.]+(\\.opt-[^.]+)?\\.pyc")
-                for precompiled in list(cache.iterdir()):
+                try:
+                    cached_files = list(cache.iterdir())
+                except FileNotFoundError:  # became empty and removed while uninstalling another package
+                    continue
+
+                for precompiled in cached_files:
                     if precompiled_rx.fullmatch(precompiled.name):
                         remove(precompiled)
 
@@ -264,8 +270,5 @@ class InstalledPackage(Package, Serializable):
                     or not any(it in parent.parents for it in target_dirs):
                 continue
 
-            if parent.is_dir() and is_empty_directory(parent):
-                transaction.rm(parent)
-                parents_to_check.add(parent.parent)
-            elif not parent.exists():
+            if transaction.rmdir(parent) or not parent.exists():
                 parents_to_check.add(parent.parent)
-- 
2.43.0


From 603daf815b6a31104e9fe17126334d08a230a2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 076/122] fix: packages come from the repositories the
 configuration selects: bindings by any spelling of a name, through every
 context and with repositories named elsewhere, and a package a server does
 not have is not an error

---
 docs-builder/src/repositories.rst             |  4 +-
 docs/_sources/repositories.rst.txt            |  4 +-
 .../repositories_configuration.py             | 10 +-
 .../pkm/api/repositories/repository_loader.py | 91 ++++++++++++-------
 .../api/repositories/repository_management.py | 35 ++++---
 pkm/src/pkm/repositories/pypi_repository.py   |  2 +
 pkm/src/pkm/repositories/simple_repository.py | 11 ++-
 pkm/src/pkm/utils/http/http_client.py         |  6 ++
 8 files changed, 106 insertions(+), 57 deletions(-)

diff --git a/docs-builder/src/repositories.rst b/docs-builder/src/repositories.rst
index f16e22a..b35ed7e 100644
--- a/docs-builder/src/repositories.rst
+++ b/docs-builder/src/repositories.rst
@@ -144,12 +144,12 @@ For example:
 
 
 If you want to instruct pkm, that for a specific package it should use a specific repository, regardless of the search
-order, you can use the :toml-table:`package-binding` section in :file:`repositories.toml` file.
+order, you can use the :toml-table:`package-bindings` section in :file:`repositories.toml` file.
 
 ..  code-block:: toml
     :caption: repositories.toml
 
-    [package-binding]
+    [package-bindings]
     package1 = "repo-1" # reference preconfigured repository by name
     package2 = { type = 'repo-type', arg1 = 'arg1', arg2 = 'arg2' } # bind to inline, unnamed repository configuration
 
diff --git a/docs/_sources/repositories.rst.txt b/docs/_sources/repositories.rst.txt
index f16e22a..b35ed7e 100644
--- a/docs/_sources/repositories.rst.txt
+++ b/docs/_sources/repositories.rst.txt
@@ -144,12 +144,12 @@ For example:
 
 
 If you want to instruct pkm, that for a specific package it should use a specific repository, regardless of the search
-order, you can use the :toml-table:`package-binding` section in :file:`repositories.toml` file.
+order, you can use the :toml-table:`package-bindings` section in :file:`repositories.toml` file.
 
 ..  code-block:: toml
     :caption: repositories.toml
 
-    [package-binding]
+    [package-bindings]
     package1 = "repo-1" # reference preconfigured repository by name
     package2 = { type = 'repo-type', arg1 = 'arg1', arg2 = 'arg2' } # bind to inline, unnamed repository configuration
 
diff --git a/pkm/src/pkm/api/repositories/repositories_configuration.py b/pkm/src/pkm/api/repositories/repositories_configuration.py
index 99f9925..2bbe6d9 100644
--- a/pkm/src/pkm/api/repositories/repositories_configuration.py
+++ b/pkm/src/pkm/api/repositories/repositories_configuration.py
@@ -24,12 +24,20 @@ class RepositoryInstanceConfig:
     bind_only: bool = config_field(key="bind-only", default=False)
     args: Dict[str, str] = config_field(leftover=True)
 
+    @classmethod
+    def from_config(cls, data: Mapping[str, Any]) -> RepositoryInstanceConfig:
+        args = dict(data)
+        return cls(args.pop("type"), bool(args.pop("bind-only", False)), args)
+
+    def to_config(self) -> Dict[str, Any]:
+        return {"type": self.type, **({"bind-only": True} if self.bind_only else {}), **self.args}
+
 
 @config(io=TomlConfigIO())
 class RepositoriesConfiguration(ConfigFile):
     repos: Dict[str, RepositoryInstanceConfig] = config_field(default_factory=dict)
     inheritance: str = "context"
-    package_bindings: Mapping[str, Any] = config_field(key="package-bindings", default_factory=dict)
+    package_bindings: Dict[str, Any] = config_field(key="package-bindings", default_factory=dict)
 
     @cached_property
     def inheritance_mode(self) -> RepositoriesConfigInheritanceMode:
diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index 93f9ade..0156203 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -4,20 +4,19 @@ import warnings
 from collections import defaultdict
 from dataclasses import dataclass, field
 from pathlib import Path
-from typing import List, Dict, Iterable, Optional, Set, Mapping
+from typing import List, Dict, Iterable, Optional, Mapping, Union
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
-from pkm.api.packages.package import Package
+from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.repositories.repositories_configuration import RepositoriesConfiguration, \
-    RepositoriesConfigInheritanceMode
+    RepositoriesConfigInheritanceMode, RepositoryInstanceConfig
 from pkm.api.repositories.repository import Repository, RepositoryBuilder, AbstractRepository
 from pkm.repositories.file_repository import FileRepository
 from pkm.repositories.pypi_repository import PypiRepositoryBuilder
 from pkm.utils.commons import NoSuchElementException
 from pkm.utils.entrypoints import EntryPoint
 from pkm.utils.hashes import HashBuilder
-from pkm.utils.iterators import first_or_none
 
 REPOSITORIES_EXTENSIONS_ENTRYPOINT_GROUP = "pkm-repositories"
 REPOSITORIES_CONFIGURATION_PATH = "etc/pkm/repositories.toml"
@@ -68,15 +67,21 @@ class RepositoryLoader:
                 warnings.warn(f"malformed repository entrypoint: {epoint}")
                 traceback.print_exc()
 
-        base = _CompositeRepository('base', base_repositories, set(), {})
+        self._base_repo = _CompositeRepository('base', base_repositories, (), {})
 
         self._cached_instances: Dict[_CachedRepositoryKey, Repository] = {}
 
         self.global_repo_config = RepositoriesConfiguration.load(main_cfg)
 
-        self._global_repo = self.load('global', self.global_repo_config, base)
+        self._global_repo = self.load('global', self.global_repo_config, self._base_repo)
         self.workspace = workspace
 
+    def reload_global_repo(self):
+        """
+        rebuild the global repository, required after its configuration was changed
+        """
+        self._global_repo = self.load('global', self.global_repo_config, self._base_repo)
+
     def available_repository_types(self) -> Iterable[RepositoryTypeInfo]:
         for builder in self._builders.values():
             yield RepositoryTypeInfo(builder, self._builder_providers.get(builder.repo_type))
@@ -85,41 +90,47 @@ class RepositoryLoader:
     def global_repo(self) -> Repository:
         return self._global_repo
 
-    def load(self, name: str, config: RepositoriesConfiguration, next_in_context: Repository) -> Repository:
-        package_search_list = []
-        binding_only_repositories = set()
+    def load(
+            self, name: str, config: RepositoriesConfiguration, next_in_context: Optional[Repository],
+            context_repos: Optional[Mapping[str, RepositoryInstanceConfig]] = None) -> Repository:
+        """
+        :param name: the name of the loaded repository
+        :param config: the configuration to load
+        :param next_in_context: the repository of the surrounding context
+        :param context_repos: the repositories defined in the surrounding contexts, packages may be bound to these too
+        :return: repository that follows the given configuration
+        """
+
+        package_search_list: List[Repository] = []
+        binding_only_repositories: List[Repository] = []
+        bindable: Dict[str, Repository] = {}
 
         for defined_name, definition in config.repos.items():
             instance = self.build(defined_name, definition.type, **definition.args)
-            package_search_list.append(instance)
-            if definition.bind_only:
-                binding_only_repositories.add(defined_name)
+            bindable[defined_name] = instance
+            (binding_only_repositories if definition.bind_only else package_search_list).append(instance)
 
         if config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_CONTEXT:
-            package_search_list.append(next_in_context)
+            if next_in_context:
+                package_search_list.append(next_in_context)
         elif config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
             package_search_list.append(self.global_repo)
 
-        package_binding: Dict[str, str] = {}
+        package_binding: Dict[str, Union[str, Repository]] = {}
         for package, binding in config.package_bindings.items():
-            if isinstance(binding, str):
-                package_binding[package] = binding
-            else:
-                type_ = binding.pop('type')
-                binding = self.build(name, type_, **binding)
-                binding_only_repositories.add(binding.name)
-                package_search_list.append(binding)
-                package_binding[package] = binding.name
-
-        if not package_search_list:
-            if config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
-                return self.global_repo
-            return next_in_context
+            if not isinstance(binding, str):
+                definition = RepositoryInstanceConfig.from_config(binding)
+                repo = self.build(f"{name}:{package}", definition.type, **definition.args)
+                binding_only_repositories.append(repo)
+            elif not (repo := bindable.get(binding)) and (definition := (context_repos or {}).get(binding)):
+                repo = self.build(binding, definition.type, **definition.args)
+
+            package_binding[PackageDescriptor.package_name_key(package)] = repo or binding
 
         return _CompositeRepository(name, package_search_list, binding_only_repositories, package_binding)
 
     def build(self, name: str, builder: str, **args) -> Repository:
-        key = _CachedRepositoryKey(builder, args)
+        key = _CachedRepositoryKey(name, builder, args)
         if not (cached := self._cached_instances.get(key)):
             if not (builder := self._builders.get(builder)):
                 raise KeyError(f"unknown repository type: {builder}")
@@ -131,11 +142,13 @@ class RepositoryLoader:
 
 @dataclass(eq=True)
 class _CachedRepositoryKey:
+    name: str
     builder: str
     args: Dict[str, str]
 
     def __hash__(self):
         return HashBuilder() \
+            .regular(self.name) \
             .regular(self.builder) \
             .unordered_mapping(self.args) \
             .build()
@@ -144,17 +157,25 @@ class _CachedRepositoryKey:
 class _CompositeRepository(AbstractRepository):
     def __init__(
             self, name: str, package_search_list: List[Repository],
-            binding_only_repositories: Set[str], package_bindings: Mapping[str, str]):
+            binding_only_repositories: Iterable[Repository], package_bindings: Mapping[str, Union[str, Repository]]):
+        """
+        :param name: the name of this repository
+        :param package_search_list: the repositories to search, by their order
+        :param binding_only_repositories: repositories that only handle urls and the packages that are bound to them
+        :param package_bindings: the key of a package name -> the repository it is bound to,
+            the name of this repository if it is not defined
+        """
         super().__init__(name)
 
         self._url_handlers: Dict[str, List[Repository]] = defaultdict(list)
         self._package_search_list = []
-        self._binding_only_repositories = binding_only_repositories
         self._package_binding = package_bindings
 
         for repo in package_search_list:
             if repo.accept_non_url_packages():
                 self._package_search_list.append(repo)
+
+        for repo in (*package_search_list, *binding_only_repositories):
             for protocol in repo.accepted_url_protocols():
                 self._url_handlers[protocol].append(repo)
 
@@ -164,16 +185,16 @@ class _CompositeRepository(AbstractRepository):
             for repo in self._url_handlers[url.protocol]:
                 if match := repo.match(dependency, env):
                     return match
-            raise []
+            return []
 
-        if repo_name := self._package_binding.get(dependency.package_name):
-            if not (repo := first_or_none(it for it in self._package_search_list if it.name == repo_name)):
+        if repo := self._package_binding.get(dependency.package_name_key):
+            if isinstance(repo, str):
                 raise NoSuchElementException(f"package: {dependency.package_name} is bound to "
-                                             f"repository: {repo_name}, but this repository is not defined")
+                                             f"repository: {repo}, but this repository is not defined")
             return repo.match(dependency, env)
 
         for repo in self._package_search_list:
-            if repo.name not in self._binding_only_repositories and (result := repo.match(dependency, env)):
+            if result := repo.match(dependency, env):
                 return result
 
         return []
diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index fe0d330..2d88ca1 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -7,7 +7,7 @@ from typing import Dict, List, Optional, Tuple, Iterable, Union, Set
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
 from pkm.api.environments.environments_zoo import EnvironmentsZoo
-from pkm.api.packages.package import Package
+from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.pkm import HasAttachedRepository, Pkm, pkm
 from pkm.api.projects.project import Project
 from pkm.api.projects.project_group import ProjectGroup
@@ -56,7 +56,7 @@ class RepositoryManagement(ABC):
 
     def package_lookup_chain(self) -> List[RepositoryManagement]:
         if self.configuration.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
-            return [pkm.repository_management]
+            return [self] if self is pkm.repository_management else [self, pkm.repository_management]
         elif self.configuration.inheritance_mode != RepositoriesConfigInheritanceMode.INHERIT_CONTEXT:
             return [self]
 
@@ -97,29 +97,30 @@ class RepositoryManagement(ABC):
         return result
 
     def register_bindings(self, packages: List[str], repo: Optional[Union[str, RepositoryInstanceConfig]]):
+        name_keys = {PackageDescriptor.package_name_key(p) for p in packages}
+        bindings = {
+            p: r for p, r in self.configuration.package_bindings.items()
+            if PackageDescriptor.package_name_key(p) not in name_keys
+        }
+
         if repo:
             if isinstance(repo, RepositoryInstanceConfig):
                 repo = repo.to_config()
+            bindings.update({p: repo for p in packages})
 
-            self.configuration.package_bindings = {
-                **self.configuration.package_bindings,
-                **{p: repo for p in packages}
-            }
-        else:
-            self.configuration.package_bindings = {
-                p: r for p, r in self.configuration.package_bindings.items()
-                if p not in packages
-            }
+        self.configuration.package_bindings = bindings
 
         self._update_config()
 
     @cached_property
     def attached_repo(self) -> Repository:
         repo = None
+        context_repos: Dict[str, RepositoryInstanceConfig] = {}
         for rman in reversed(self.package_lookup_chain()):
             if not isinstance(rman, PkmRepositoryManagement) and rman.configuration.path.exists():
-                repo = self._loader.load(str(rman.configuration.path), rman.configuration, repo)
+                repo = self._loader.load(str(rman.configuration.path), rman.configuration, repo, context_repos)
             repo = rman._wrap_attached_repository(repo)
+            context_repos.update(rman.configuration.repos)
 
         return repo
 
@@ -166,6 +167,10 @@ class PkmRepositoryManagement(RepositoryManagement):
     def _wrap_attached_repository(self, inherited: Optional[Repository]) -> Repository:
         return self._loader.global_repo
 
+    def _update_config(self):
+        super()._update_config()
+        self._loader.reload_global_repo()
+
     def parent_contexts(self) -> List[HasAttachedRepository]:
         return []
 
@@ -266,7 +271,9 @@ class ProjectsRepository(AbstractRepository):
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         if not dependency.required_url():
             if matched_projects := self._packages.get(dependency.package_name_key):
-                return self._sorted_by_version([project for project in matched_projects])
+                matched_projects = [p for p in matched_projects if dependency.version_spec.allows_version(p.version)]
+                if matched_projects:
+                    return self._sorted_by_version(matched_projects)
         if self._base_repo:
             return self._base_repo.match(dependency, env)
         return []
@@ -277,7 +284,7 @@ class ProjectsRepository(AbstractRepository):
         return ProjectsRepository(name, grouped_projects, base)
 
     def accept_non_url_packages(self) -> bool:
-        return self._base_repo and self._base_repo.accept_non_url_packages()
+        return True
 
     def accepted_url_protocols(self) -> Iterable[str]:
         if self._base_repo:
diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index 1c66ace..274a763 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -51,6 +51,8 @@ class PyPiRepository(AbstractRepository, Serializable):
                                 resource_name=f"matching packages for {dependency}") \
                 .read_data_as_json()
         except HttpException as e:
+            if e.is_missing_resource():
+                return []
             raise InstallationException(
                 f"package: '{dependency.package_name}' could not be retrieved from repository: '{self.name}'") from e
 
diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index 6f388b2..6b1c226 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -14,7 +14,7 @@ from pkm.api.repositories.repository import Repository, RepositoryBuilder, Abstr
 from pkm.api.versions.version import Version
 from pkm.api.versions.version_specifiers import VersionSpecifier
 from pkm.utils.http.cache_directive import CacheDirective
-from pkm.utils.http.http_client import Url
+from pkm.utils.http.http_client import HttpException, Url
 from pkm.utils.types import Serializable
 from pkm.utils.iterators import groupby
 from pkm.utils.strings import endswith_any, without_suffix
@@ -35,8 +35,13 @@ class SimpleRepository(AbstractRepository):
         normalized_name = re.sub(r"[-_.]+", "-", dependency.package_name).lower()  # as defined in pep503
         if not (version_to_package := self._packages.get(normalized_name)):
             page_url = f"{self._url}/{normalized_name}/"
-            data = pkm.httpclient.fetch_resource(
-                page_url, CacheDirective.ask_for_update(), resource_name=f"matching packages for {dependency}").data
+            try:
+                data = pkm.httpclient.fetch_resource(
+                    page_url, CacheDirective.ask_for_update(), resource_name=f"matching packages for {dependency}").data
+            except HttpException as e:
+                if e.is_missing_resource():
+                    return []
+                raise
             extractor = _HtmlArtifactsExtractor(page_url)
             extractor.feed(data.read_text())
             extractor.close()
diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index f052975..44865fc 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -50,6 +50,12 @@ class HttpException(IOError):
         super().__init__(msg)
         self.response = response
 
+    def is_missing_resource(self) -> bool:
+        """
+        :return: True if the server responded that it does not have the requested resource
+        """
+        return self.response is not None and self.response.status in (404, 410)
+
 
 @dataclass(frozen=True, eq=True)
 class Url:
-- 
2.43.0


From 5842af2a181b6cb1e4b933d9ea246bbd5be86192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 077/122] fix: project groups keep each member once, forget
 removed ones, skip directories that are missing, know their parents and keep
 their other settings

---
 pkm/src/pkm/api/projects/project_group.py | 39 ++++++++++++++++-------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/pkm/src/pkm/api/projects/project_group.py b/pkm/src/pkm/api/projects/project_group.py
index ee85537..200904c 100644
--- a/pkm/src/pkm/api/projects/project_group.py
+++ b/pkm/src/pkm/api/projects/project_group.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from pathlib import Path
 from typing import Iterable, Union, Optional, List, TYPE_CHECKING
 
+from pkm.api.packages.package import PackageDescriptor
 from pkm.api.pkm import HasAttachedRepository
 from pkm.api.projects.environments_config import EnvironmentsConfiguration, ENVIRONMENT_CONFIGURATION_PATH
 from pkm.api.projects.project import Project
@@ -42,6 +43,10 @@ class ProjectGroup(HasAttachedRepository, Serializable):
     def config(self) -> "PyProjectGroupConfiguration":
         return self._config
 
+    @property
+    def name(self) -> str:
+        return self._config.name
+
     @cached_property
     def environments_config(self) -> EnvironmentsConfiguration:
         return EnvironmentsConfiguration.load(self.path / ENVIRONMENT_CONFIGURATION_PATH)
@@ -59,16 +64,14 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         if not (parent := self._config.parent):
             return ProjectGroup._find_group(self.path.resolve())
         else:
-            return ProjectGroup(PyProjectGroupConfiguration.load(
-                ensure_exists(parent, lambda: f"{self.path}'s parent path {parent} doesn't exists")
-            ))
+            return ProjectGroup(_load_group_config(self.path, parent))
 
     @cached_property
     def root(self) -> Optional["ProjectGroup"]:
         """
         :return: the top most parent of this project group
         """
-        return parent.root if (parent := self.parent) else None
+        return (parent.root or parent) if (parent := self.parent) else None
 
     @cached_property
     def children(self) -> Iterable[Union[Project, "ProjectGroup"]]:
@@ -79,7 +82,7 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         for child in self._config.resolved_children:
             if (child / 'pyproject.toml').exists():
                 result.append(Project.load(child, group=self))
-            elif (child / 'pyproject-group.toml').exists:
+            elif (child / 'pyproject-group.toml').exists():
                 result.append(
                     ProjectGroup(PyProjectGroupConfiguration.load(child / 'pyproject-group.toml'), parent=self))
 
@@ -107,8 +110,8 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         """
 
         project_path = project if isinstance(project, Path) else project.path
-        self._config.children.append(project_path)
-        self._config.save()
+        if self.path.joinpath(project_path).resolve() not in self._config.resolved_children:
+            self._update_children([*self._config.children, project_path])
 
     def remove(self, project: Union[str, Path]):
         """
@@ -116,13 +119,19 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         :param project: the project name or path to remove
         """
         if isinstance(project, str):
-            project = single_or_raise(p for p in self.children if p.name == project).path
+            name = PackageDescriptor.package_name_key(project)
+            project = single_or_raise(p for p in self.children if PackageDescriptor.package_name_key(p.name) == name).path
 
         project = project.resolve()
 
-        self._config.children = [
-            p for p, rp in zip(self._config.children, self._config.resolved_children) if rp != project]
+        self._update_children([
+            p for p, rp in zip(self._config.children, self._config.resolved_children) if rp != project])
+
+    def _update_children(self, children: List[Path]):
+        self._config.children = children
         self._config.save()
+        del self.children
+        del self.project_children_recursive
 
     def build_all(self):
         """
@@ -151,8 +160,8 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         :return: the project group if such defined
         """
         if (pkm_project := project.config.pkm_project) and (group := pkm_project.group):
-            return ProjectGroup(PyProjectGroupConfiguration.load(Path(project.path, group)))
-        return cls._find_group(project.path)
+            return ProjectGroup(_load_group_config(project.path, group))
+        return cls._find_group(project.path.resolve())
 
     @classmethod
     def load(cls, path: Path) -> "ProjectGroup":
@@ -177,6 +186,7 @@ class PyProjectGroupConfiguration(ConfigFile):
     _name: str = config_field(key="name")
     children: List[Path] = config_field(default_factory=list)
     parent: Path = None
+    leftovers = config_field(leftover=True)
 
     @property
     def resolved_children(self) -> Iterable[Path]:
@@ -185,3 +195,8 @@ class PyProjectGroupConfiguration(ConfigFile):
     @property
     def name(self) -> str:
         return self._name or self.path.parent.name
+
+
+def _load_group_config(directory: Path, group: Union[Path, str]) -> PyProjectGroupConfiguration:
+    path = ensure_exists(Path(directory, group), lambda: f"{directory}'s group path {group} doesn't exists")
+    return PyProjectGroupConfiguration.load(path / 'pyproject-group.toml' if path.is_dir() else path)
-- 
2.43.0


From 378a676f45df80b197dda99eacb0e0d377b9f2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:03 +0000
Subject: [PATCH 078/122] fix: what is known about an interpreter is remembered
 across processes, and an environment that cannot be written to, or whose
 remembered file is broken, is still usable

---
 .../environments/environment_introspection.py  | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 8c38082..3bf69d1 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -1,12 +1,12 @@
 from __future__ import annotations
 
+import hashlib
 import json
 import os
 import re
 import subprocess
 import warnings
 from dataclasses import dataclass
-from json import JSONDecodeError
 from pathlib import Path
 from struct import Struct
 from typing import Iterator, Tuple, List, Optional, Dict, IO, Callable, Any
@@ -20,6 +20,7 @@ from pkm.utils.types import Comparable
 _INTROSPECTION_CODE = """
 import sys
 import sysconfig
+import hashlib
 import json
 import importlib.machinery
 import platform
@@ -410,11 +411,15 @@ class EnvironmentIntrospection:
 
         try:
             data = json.loads(path.read_text()) if path.exists() else {}
-        except JSONDecodeError as err:
+            if not isinstance(data, dict):
+                raise ValueError(f"expecting a json object, got: {type(data)}")
+        except ValueError as err:
             warnings.warn(f"env introspection is corrupted, rebuilding it: {err}")
             data = {}
 
-        current_introspection_sentinal = hash((_INTROSPECTION_CODE, str(interpreter_path.absolute())))
+        # noinspection InsecureHash
+        current_introspection_sentinal = hashlib.md5(
+            f"{interpreter_path.absolute()}\n{_INTROSPECTION_CODE}".encode()).hexdigest()
         if (introspection_sentinal := data.get('introspection')) \
                 and introspection_sentinal == current_introspection_sentinal:
             return cls(data=data)
@@ -423,8 +428,11 @@ class EnvironmentIntrospection:
         if save_if_recomputed:
             data = result._data
             data['introspection'] = current_introspection_sentinal
-            path.parent.mkdir(exist_ok=True, parents=True)
-            path.write_text(json.dumps(data))
+            try:
+                path.parent.mkdir(exist_ok=True, parents=True)
+                path.write_text(json.dumps(data))
+            except OSError as err:  # e.g., an environment that is not owned by the current user
+                warnings.warn(f"could not save env introspection: {err}")
 
         return result
 
-- 
2.43.0


From ade55102c9f7473b7d7d089ec6a17e8b766d3110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:47 +0000
Subject: [PATCH 079/122] fix: a build cycle is noticed across worker processes
 and a package that is needed more than once is not taken for one, metadata of
 backends without a metadata hook can be built, and cached builds are put in
 place whole without removing those of other sources

---
 pkm/src/pkm/api/environments/environment.py |  9 ++++--
 pkm/src/pkm/build/external_builders.py      | 13 +++-----
 pkm/src/pkm/build/source_build_cache.py     | 36 +++++++++++++--------
 3 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment.py b/pkm/src/pkm/api/environments/environment.py
index 1fef38e..71fa0da 100644
--- a/pkm/src/pkm/api/environments/environment.py
+++ b/pkm/src/pkm/api/environments/environment.py
@@ -9,7 +9,7 @@ from contextlib import contextmanager
 from dataclasses import dataclass, replace
 from pathlib import Path
 from subprocess import CompletedProcess
-from typing import List, Set, Dict, Optional, Union, TypeVar, NoReturn, MutableMapping, TYPE_CHECKING
+from typing import List, Set, Dict, Optional, Union, Tuple, TypeVar, NoReturn, MutableMapping, TYPE_CHECKING
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.pth_link import PthLink
@@ -51,11 +51,16 @@ class Environment(HasAttachedRepository, Serializable):
         if zoo:
             self.zoo = zoo  # noqa
 
+        # the packages whose build led to the creation of this environment, outermost first
+        self.build_path: Tuple[PackageDescriptor, ...] = ()
+
     def __getstate__(self):
-        return [[self._env_path, self._interpreter_path], {'use_user_site': self._use_user_site, 'zoo': self.zoo}]
+        return [[self._env_path, self._interpreter_path], {'use_user_site': self._use_user_site, 'zoo': self.zoo},
+                self.build_path]
 
     def __setstate__(self, state):
         self.__init__(*state[0], **state[1])
+        self.build_path = state[2]
 
     @property
     def path(self) -> Path:
diff --git a/pkm/src/pkm/build/external_builders.py b/pkm/src/pkm/build/external_builders.py
index 526008b..48e4962 100644
--- a/pkm/src/pkm/build/external_builders.py
+++ b/pkm/src/pkm/build/external_builders.py
@@ -8,15 +8,12 @@ from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.build_monitors import BuildPackageMonitoredOp, BuildPackageHookExecutionEvent
 from pkm.api.packages.package import PackageDescriptor
 from pkm.api.projects.pyproject_configuration import BuildSystemConfig
-from pkm.utils.dicts import put_if_absent
 from pkm.utils.files import temp_dir
 
 if TYPE_CHECKING:
     from pkm.api.environments.environment import Environment
     from pkm.api.projects.project import Project
 
-_CURRENT_BUILD_PATH_ATTR = "_current_build_path"
-
 
 class BuildError(IOError):
 
@@ -92,16 +89,14 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None, only_meta
     from pkm.api.environments.environment_builder import EnvironmentBuilder
     target_dir = target_dir or (project.directories.dist / str(project.version))
 
-    if not target_env or (current_build_path := getattr(target_env, _CURRENT_BUILD_PATH_ATTR, None)) is None:
-        current_build_path = dict()
-
-    if not put_if_absent(current_build_path, project.descriptor, True):
+    current_build_path = target_env.build_path if target_env else ()
+    if project.descriptor in current_build_path:
         def pstr(p: PackageDescriptor):
             return f"{p.name} {p.version}"
 
         raise BuildError(
             f"build cycle detected: "
-            f"{' -> '.join(pstr(it) for it in current_build_path.keys())} -> {pstr(project.descriptor)}")
+            f"{' -> '.join(pstr(it) for it in current_build_path)} -> {pstr(project.descriptor)}")
 
     interpreter_path = target_env.interpreter_path if target_env else project.attached_environment.interpreter_path
 
@@ -114,7 +109,7 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None, only_meta
         build_packages_repo = project.attached_repository
 
         build_env = EnvironmentBuilder.create(tdir / 'venv', interpreter_path)
-        setattr(build_env, _CURRENT_BUILD_PATH_ATTR, current_build_path)
+        build_env.build_path = (*current_build_path, project.descriptor)
 
         if buildsys.requirements:
             build_env.install(buildsys.requirements, build_packages_repo)
diff --git a/pkm/src/pkm/build/source_build_cache.py b/pkm/src/pkm/build/source_build_cache.py
index ae5fb75..f6098bd 100644
--- a/pkm/src/pkm/build/source_build_cache.py
+++ b/pkm/src/pkm/build/source_build_cache.py
@@ -1,6 +1,8 @@
 import hashlib
+import os
 import shutil
 from pathlib import Path
+from tempfile import TemporaryDirectory
 from typing import Any
 
 import pkm.build.external_builders as ext_build
@@ -52,9 +54,6 @@ class SourceBuildCache:
             if wheel := single_or(cache_dir.glob("*.whl"), None):
                 return wheel
 
-        if base_cache_dir.exists():
-            shutil.rmtree(base_cache_dir)
-
         with temp_dir() as tdir:
             extract_archive(dist.archive, tdir)
             sdir = single_or_raise(tdir.iterdir())
@@ -77,15 +76,24 @@ class SourceBuildCache:
                 if not wheel_metadata_path.exists():
                     raise BuildError("build backend did not create a wheel METADATA file")
 
-                cache_dir.mkdir(parents=True, exist_ok=True)
-                shutil.copy(wheel_metadata_path, metadata_file)
-                return PackageMetadata.load(wheel_metadata_path)
+                result = PackageMetadata.load(wheel_metadata_path)
+                _put(wheel_metadata_path, metadata_file)
+                return result
             else:
-                if not metadata_file.exists():
-                    metadata = WheelDistribution(dist.owner_package, output).extract_metadata()
-                    metadata.save(metadata_file)
-
-                cached_output = cache_dir / output.name
-                cache_dir.mkdir(parents=True, exist_ok=True)
-                shutil.move(output, cached_output)
-                return cached_output
+                result = WheelDistribution(dist.owner_package, output).extract_metadata(target.env)
+                result.save(tdir / 'METADATA')
+
+                # the metadata is put last: the wheel is considered only if it is there
+                _put(output, cached_output := cache_dir / output.name)
+                _put(tdir / 'METADATA', metadata_file)
+                return result if metadata else cached_output
+
+
+def _put(source: Path, target: Path):
+    """
+    copy `source` into `target` such that `target` is never seen (or left) incomplete
+    """
+    target.parent.mkdir(parents=True, exist_ok=True)
+    with TemporaryDirectory(prefix='.put-', dir=target.parent) as tdir:
+        shutil.copy(source, tmp_target := Path(tdir, target.name))
+        os.replace(tmp_target, target)
-- 
2.43.0


From 2824c4f85239c0d98a13196f8902a5cee04131ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:36 +0000
Subject: [PATCH 080/122] fix: containers keep working when a command is not an
 identifier, when they are updated, have plugins, come from a project or a
 built application wheel, return the exit status and are removed completely

---
 .../api/distributions/wheel_distribution.py   |   9 ++
 .../api/environments/package_containers.py    | 129 ++++++++++++------
 pkm/src/pkm/api/packages/site_packages.py     |   9 ++
 pkm/src/pkm/build/pkm_app_builders.py         |  16 ++-
 4 files changed, 122 insertions(+), 41 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index 1bfb48c..86fc437 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -167,6 +167,8 @@ class WheelDistribution(Distribution):
                 ct.overwrite(new_dist_info.user_requested_path())
                 new_dist_info.mark_as_user_requested(user_request)
             if installation_info:
+                if _is_built_app_container(dist_info):
+                    installation_info = replace(installation_info, containerized=True)
                 ct.overwrite(new_dist_info.installation_info_path())
                 new_dist_info.save_installation_info(installation_info)
 
@@ -190,6 +192,13 @@ class WheelDistribution(Distribution):
                 self._package, tmp_path, target, user_request, installation_mode)
 
 
+def _is_built_app_container(dist_info: DistInfo) -> bool:
+    try:
+        return bool(dist_info.is_app_container())
+    except Exception:  # noqa: not something that was written by pkm
+        return False
+
+
 def _find_dist_info(unpacked_wheel: Path, package: PackageDescriptor) -> DistInfo:
     dist_info = list(unpacked_wheel.glob("*.dist-info"))
     if not dist_info:
diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 284a062..95a5f28 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -1,4 +1,6 @@
+import keyword
 import os
+import shutil
 from contextlib import contextmanager
 from dataclasses import replace
 from pathlib import Path
@@ -95,7 +97,7 @@ class PackageContainers:
             if it.dist_info.is_app_container()]
 
     def _target_of(self, package: str) -> PackageInstallationTarget:
-        app_base = Path(self._target.purelib) / PackageDescriptor.normalize_src_package_name(package)
+        app_base = Path(self._target.purelib) / _app_package_name(package)
         app_site = str(app_base / CONTAINERIZED_APP_SITE_PATH)
         app_bin = str(app_base / CONTAINERIZED_APP_BIN_PATH)
         app_data = str(app_base / CONTAINERIZED_APP_DATA_PATH)
@@ -109,9 +111,8 @@ class PackageContainers:
         """
 
         spacks = self._target.site_packages
-        package_cnt = package + _CONTAINERIZED_WRAPPER_SUFFIX
-        if (cnt := spacks.installed_package(package)) or (cnt := spacks.installed_package(package_cnt)):
-            if cnt.dist_info.is_app_container():
+        for name in (package, package + _CONTAINERIZED_WRAPPER_SUFFIX):
+            if (cnt := spacks.installed_package(name)) and cnt.dist_info.is_app_container():
                 return PackageContainer(cnt, self._target_of(cnt.name))
         return None
 
@@ -123,10 +124,10 @@ class PackageContainers:
 
             if isinstance(app, Project):
                 repocfg = RepositoriesConfiguration.load(tdir / REPOSITORIES_CONFIGURATION_PATH)
-                repocfg.repositories = [RepositoryInstanceConfig.from_config('wrapped-project', {
+                repocfg.repos = {'wrapped-project': RepositoryInstanceConfig.from_config({
                     'type': FILE_SYSTEM_REPOSITORY_TYPE,
-                    'path': app.path
-                })]
+                    'path': str(app.path.absolute())
+                })}
 
                 repocfg.save()
                 app = app.descriptor.to_dependency()
@@ -140,7 +141,9 @@ class PackageContainers:
             pyprj.pkm_application = PkmApplicationConfig(True, [app], {}, [app.package_name])
 
             pyprj.save()
-            yield Project.load(tdir)
+            wrapper = Project.load(tdir)
+            wrapper.attached_environment = self._target.env
+            yield wrapper
 
     def _install(
             self, app: "Project", store_mode: StoreMode = StoreMode.AUTO) -> PackageContainer:
@@ -148,32 +151,48 @@ class PackageContainers:
         editable = store_mode != StoreMode.COPY
         contained_target = self._target_of(app.name)
         app_dir = Path(contained_target.purelib).parent.parent
+        container_dir = Path(contained_target.data)
 
         with temp_dir() as tdir, CopyTransaction() as ct:
+            app_config = app.config.pkm_application
+            contained_site = contained_target.site_packages
+
+            ct.mkdir(app_dir)
+            is_new_container = not container_dir.exists()
+            if previous_app := contained_site.installed_package(app.name):
+                previous_app.uninstall(ct)
 
-            if Path(contained_target.purelib).exists():
-                contained_target.force_remove(app.name)
-            else:
+            try:
                 for path in _CONTAINERIZED_TARGET_USED_PATHS:
                     mkdir(Path(getattr(contained_target, path)))
 
-            contained_site = contained_target.site_packages
-            app_config = app.config.pkm_application
-
-            contained_target.install(
-                app_config.dependencies, dependencies_override=app_config.dependency_overwrites,
-                repository=app.attached_repository,
-                store_mode={d.package_name: store_mode for d in app_config.dependencies},
-                updates=[d.package_name for d in app_config.dependencies])
-
-            WheelDistribution(app.descriptor, build_wheel(app, tdir / "whl", editable=editable)) \
-                .install_to(contained_target, app.descriptor.to_dependency(),
-                            PackageInstallationInfo(store_mode=StoreMode.EDITABLE if editable else StoreMode.COPY))
+                contained_target.install(
+                    app_config.dependencies, dependencies_override=app_config.dependency_overwrites,
+                    repository=app.attached_repository, user_requested=False,
+                    store_mode={d.package_name: store_mode for d in app_config.dependencies},
+                    updates=[d.package_name for d in app_config.dependencies])
+
+                app_wheel = build_wheel(app, tdir / "whl", editable=editable, target_env=self._target.env)
+                WheelDistribution(app.descriptor, app_wheel).install_to(
+                    contained_target, app.descriptor.to_dependency(),
+                    PackageInstallationInfo(store_mode=StoreMode.EDITABLE if editable else StoreMode.COPY))
+            except BaseException:
+                if is_new_container:
+                    shutil.rmtree(container_dir, ignore_errors=True)
+                raise
 
             contained_site.reload()
 
-            for path in _CONTAINERIZED_TARGET_USED_PATHS:
-                ct.touch_tree(Path(getattr(contained_target, path)))
+            # what the previous version of this container created outside it is replaced
+            previous_container = self._target.site_packages.installed_package(app.name)
+            if previous_container and previous_container.dist_info.is_app_container():
+                for file in set(previous_container.dist_info.installed_files()):
+                    if os.path.lexists(file) and container_dir.resolve() not in file.parents:
+                        ct.rm(file)
+                if previous_container.dist_info.path.exists():
+                    ct.rm(previous_container.dist_info.path)
+                if (precompiled := app_dir / "__pycache__").exists():
+                    ct.rm(precompiled)
 
             contained_app = contained_site.installed_package(app.name)
             contained_distinfo = contained_app.dist_info
@@ -191,6 +210,14 @@ class PackageContainers:
             contained_metadata.dependencies = app_config.dependencies
             contained_metadata.save()
 
+            contained_metadata_path = contained_distinfo.metadata_path().resolve()
+            contained_records = contained_distinfo.load_record_cfg()
+            contained_records.records = [
+                it for it in contained_records.records
+                if it.absolute_path(contained_distinfo) != contained_metadata_path]
+            contained_records.sign_files([contained_distinfo.metadata_path()], contained_distinfo.path.parent)
+            contained_records.save()
+
             # collect script entrypoints
             script_entrypoints: List[EntryPoint] = []
             apps_to_expose = app_config.exposed_packages + [app.name]
@@ -207,10 +234,9 @@ class PackageContainers:
                 app_entrypoints_script.write_text(_entrypoints_script(script_entrypoints))
                 ct.touch(app_entrypoints_script)
                 scripts_path = Path(self._target.scripts)
-                for script_ep in script_entrypoints:
-                    epn = PackageDescriptor.normalize_src_package_name(script_ep.name)
-                    entrypoints.append(
-                        script_ep := replace(script_ep, ref=ObjectReference.parse(f"{app_dir.name}.entrypoints:{epn}")))
+                for i, script_ep in enumerate(script_entrypoints):
+                    entrypoints.append(script_ep := replace(
+                        script_ep, ref=ObjectReference(f"{app_dir.name}.entrypoints", _entrypoint_function_name(i))))
                     ct.touch(Executables.generate_for_entrypoint(self._target.env, script_ep, scripts_path))
 
             app_entrypoints.entrypoints = entrypoints
@@ -242,7 +268,10 @@ class PackageContainers:
                     path_relative_to_site = str(path_to(installation_site, record.absolute_path(pk.dist_info)))
                     precomputed_hashes[path_relative_to_site] = record.hash_signature
 
-            records.sign_files(ct.copied_files, installation_site, precomputed_hashes)
+            container_files = [it for it in container_dir.rglob("*") if '__pycache__' not in it.parts]
+            records.sign_files(
+                {*ct.copied_files, *container_files} - {dist_info.record_path()}, installation_site,
+                precomputed_hashes)
             records.save()
 
         self._target.site_packages.reload()
@@ -282,13 +311,34 @@ class PackageContainers:
             return self.install(prj, store_mode, True)
 
 
+def container_path(site: Path, package: str) -> Path:
+    """
+    :param site: the site packages directory that the given container is installed in
+    :param package: the name of the package that is installed as a container
+    :return: the directory that holds everything that is installed inside this container
+    """
+    return site / _app_package_name(package) / CONTAINERIZED_APP_DATA_PATH
+
+
+def _app_package_name(package: str) -> str:
+    """
+    :param package: the name of a package that is (or about to be) installed as a container
+    :return: the name of the importable package that the given `package` container resides in
+    """
+    name = PackageDescriptor.normalize_src_package_name(package)
+    return name if name.isidentifier() and not keyword.iskeyword(name) else f"_{name}"
+
+
+def _entrypoint_function_name(index: int) -> str:
+    return f"entrypoint_{index}"
+
+
 def _entrypoints_script(epoints: List[EntryPoint]):
-    def define_epfunc(ep: EntryPoint):
-        epn = PackageDescriptor.normalize_src_package_name(ep.name)
+    def define_epfunc(index: int, ep: EntryPoint):
         ref = ep.ref
-        return f"def {epn}():del sys.modules[__package__];" \
-               f"import {ref.module_path};" \
-               f"{ref.module_path}.{ref.object_path}()"
+        return f"def {_entrypoint_function_name(index)}():sys.modules.pop(__package__, None);" \
+               f"from {ref.module_path} import {ref.object_path.split('.')[0]};" \
+               f"return {ref.object_path}()"
 
     prolog = dedent("""
     import sys
@@ -297,7 +347,7 @@ def _entrypoints_script(epoints: List[EntryPoint]):
     register()
     
     """)
-    return prolog + os.linesep.join([define_epfunc(ep) for ep in epoints])
+    return prolog + os.linesep.join([define_epfunc(i, ep) for i, ep in enumerate(epoints)])
 
 
 def _register_container_script(name: str) -> str:
@@ -318,8 +368,10 @@ def _register_container_script(name: str) -> str:
     
         container_path = Path(__file__).parent
         container_site = str(container_path / '{CONTAINERIZED_APP_SITE_PATH}')
+        previous_path = list(sys.path)
         site.addsitedir(container_site)
-        sys.path.insert(1, sys.path.pop())
+        sys.path[:] = [
+            *previous_path[:1], *(it for it in sys.path if it not in previous_path), *previous_path[1:]]
     
         old_path = os.environ.get('PATH')
         path = str(container_path / '{CONTAINERIZED_APP_BIN_PATH}')
@@ -337,4 +389,5 @@ def _register_container_script(name: str) -> str:
 
 
 def _register_container_import_hook(app_package: str) -> str:
-    return f"import {app_package}.register_container"
+    # the app may contain a package with the same name, this import should not hide it
+    return f"import {app_package}.register_container; import sys; sys.modules.pop('{app_package}', None)"
diff --git a/pkm/src/pkm/api/packages/site_packages.py b/pkm/src/pkm/api/packages/site_packages.py
index ac161bb..154b59b 100644
--- a/pkm/src/pkm/api/packages/site_packages.py
+++ b/pkm/src/pkm/api/packages/site_packages.py
@@ -235,6 +235,11 @@ class InstalledPackage(Package, Serializable):
                 (target.purelib, target.platlib, target.include, target.platinclude, target.scripts, target.data))
             containers = {*target_dirs, self.site.env.path.resolve()}
 
+        container = None
+        if self.dist_info.is_app_container():
+            from pkm.api.environments.package_containers import container_path
+            container = container_path(site, self.name)
+
         parents_to_check = set()
 
         def remove(file: Path):
@@ -264,6 +269,10 @@ class InstalledPackage(Package, Serializable):
         if self._dist_info.path.exists():
             transaction.rm(self._dist_info.path)
 
+        if container and container.exists():  # may also hold packages that were added to it after its creation
+            transaction.rm(container)
+            parents_to_check.add(container.parent)
+
         while parents_to_check:
             parent = parents_to_check.pop()  # noqa : pycharm does not know's about set's pop method?
             if any(parent == it or parent in it.parents for it in target_dirs) \
diff --git a/pkm/src/pkm/build/pkm_app_builders.py b/pkm/src/pkm/build/pkm_app_builders.py
index ac8124e..4b4437b 100644
--- a/pkm/src/pkm/build/pkm_app_builders.py
+++ b/pkm/src/pkm/build/pkm_app_builders.py
@@ -9,7 +9,7 @@ from pkm.api.environments.environment import Environment
 from pkm.api.environments.environment_builder import EnvironmentBuilder
 from pkm.api.projects.project import Project
 from pkm.utils.commons import UnsupportedOperationException
-from pkm.utils.files import temp_dir
+from pkm.utils.files import is_relative_to, temp_dir
 
 CONTAINERIZED_APP_SITE_PATH = "__packages__"
 CONTAINERIZED_APP_BIN_PATH = "__bin__"
@@ -38,14 +38,24 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None,
         tenv = EnvironmentBuilder.create(tdir / "env", interpreter_path)
         target = tenv.installation_target
 
-        target.package_containers.install(project, store_mode=StoreMode.from_editable_flag(editable))
+        container = target.package_containers.install(project, store_mode=StoreMode.from_editable_flag(editable))
 
         # build the actual wheel
         wheel_path = target_dir / WheelDistribution.expected_wheel_file_name(project)
         target_dir.mkdir(parents=True, exist_ok=True)
         with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED, strict_timestamps=False) as wheel:
             build_dir = Path(target.purelib)
+
+            # the scripts are not part of the wheel, they are generated by its installer
+            dist_info = container.package.dist_info
+            records_file = dist_info.load_record_cfg()
+            records_file.records = [
+                it for it in records_file.records
+                if is_relative_to(it.absolute_path(dist_info), build_dir.resolve())]
+            records_file.save()
+
             for file in build_dir.rglob('*'):
-                wheel.write(file, file.relative_to(build_dir))
+                if '__pycache__' not in file.parts:
+                    wheel.write(file, file.relative_to(build_dir))
 
         return wheel_path
-- 
2.43.0


From aeced592de6a9886f65ef83c3501701bde49ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:48 +0000
Subject: [PATCH 081/122] fix: environments of a zoo behave as without package
 sharing: exclusions, commands, data files, extras, url dependencies and
 requested packages, and clean-up removes only what nothing uses

---
 .../pkm/api/environments/environments_zoo.py  |  17 +-
 .../api/repositories/repository_management.py |   5 +-
 pkm/src/pkm/launchers/executables.py          |  13 +
 .../pkm/repositories/shared_pacakges_repo.py  | 246 ++++++++++--------
 4 files changed, 159 insertions(+), 122 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index 5b32579..0988049 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -39,6 +39,13 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
     def _bin_path(self) -> Path:
         return self.path / ".zoo/bin"
 
+    @property
+    def shared_path(self) -> Path:
+        """
+        :return: the directory that holds the packages that are shared between the environments of this zoo
+        """
+        return self.path / ".zoo/shared"
+
     @cached_property
     def repository_management(self) -> "RepositoryManagement":
         from pkm.api.repositories.repository_management import ZooRepositoryManagement
@@ -49,16 +56,14 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
         if (env_path := self.path / name).exists():
             raise FileExistsError(f"environment with name: {name} already exists in the zoo")
 
-        return EnvironmentBuilder.create_matching(env_path, python)
+        return Environment(EnvironmentBuilder.create_matching(env_path, python).path, zoo=self)
 
     def delete_environment(self, name: str):
         # shared repository gc
-        shutil.rmtree(self.path / name)
+        shutil.rmtree(self.load_environment(name).path)
 
     def clean_unused_shared(self):
-        repo = self.attached_repository
-        if isinstance(repo, SharedPackagesRepository):
-            repo.remove_unused_packages(self.list())
+        SharedPackagesRepository.remove_unused(self.shared_path, self.list())
 
     @contextmanager
     def activate(self, env: Dict[str, str] = os.environ):
@@ -99,12 +104,14 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
                 and not (script_file := env_scripts / f"{script_name}.exe").exists():
             raise NoSuchElementException(f"script {script_name} could not be find in environment {env_name}")
 
+        self._bin_path.mkdir(exist_ok=True, parents=True)
         shutil.copy(script_file, self._bin_path / script_file.name)
 
     def export_all_scripts(self, env_name: str, package: str):
         env = self.load_environment(env_name)
         env_scripts = env.installation_target.scripts
         bin_path = self._bin_path
+        bin_path.mkdir(exist_ok=True, parents=True)
 
         for file in env.site_packages.installed_package(package).dist_info.installed_files():
             if is_relative_to(file, Path(env_scripts)):
diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index 2d88ca1..3cca031 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -210,8 +210,9 @@ class ZooRepositoryManagement(RepositoryManagement):
         return [(pkm, True)]
 
     def _wrap_attached_repository(self, inherited: Optional[Repository]) -> Repository:
-        if self.zoo.config.package_sharing.enabled:
-            inherited = SharedPackagesRepository(self.zoo.path / ".zoo/shared", inherited)
+        sharing = self.zoo.config.package_sharing
+        if sharing.enabled:
+            inherited = SharedPackagesRepository(self.zoo.shared_path, inherited, sharing.exclude)
 
         return inherited
 
diff --git a/pkm/src/pkm/launchers/executables.py b/pkm/src/pkm/launchers/executables.py
index c51ba24..05ea981 100644
--- a/pkm/src/pkm/launchers/executables.py
+++ b/pkm/src/pkm/launchers/executables.py
@@ -53,6 +53,19 @@ class Executables:
         st = os.stat(source)
         os.chmod(target, st.st_mode | stat.S_IEXEC)
 
+    @staticmethod
+    def unpatch_shabang_of_interpreter(script: Path, interpreter_path: Path):
+        """
+        reverts the changes made by `patch_shabang_for_interpreter`, making the script (that is changed in place)
+        independent of the interpreter it was patched for
+        :param script: path to the script
+        :param interpreter_path: the interpreter which the script was patched for
+        """
+        prefix = f"{_shebang(interpreter_path)}{os.linesep}".encode(sys.getfilesystemencoding())
+        content = script.read_bytes()
+        if content.startswith(prefix):
+            script.write_bytes(f"#!python{os.linesep}".encode() + content[len(prefix):])
+
     @staticmethod
     def generate(env: "Environment", target_dir: Path, file_name: str, script: str, is_gui: bool = False):
         """
diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index dfa145f..dd0cede 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -1,8 +1,7 @@
 import shutil
-import warnings
-from dataclasses import dataclass
 from pathlib import Path
-from typing import List, Optional, Set, Iterator, Iterable
+from tempfile import TemporaryDirectory
+from typing import List, Optional, Set, Iterable
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.distinfo import DistInfo, RecordsFileConfiguration
@@ -12,30 +11,45 @@ from pkm.api.environments.environment import Environment
 from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.packages.package_installation import PackageInstallationTarget
 from pkm.api.packages.package_metadata import PackageMetadata
-from pkm.api.packages.site_packages import InstalledPackage
+from pkm.api.packages.site_packages import SitePackages
+from pkm.api.projects.project import Project
 from pkm.api.repositories.repository import AbstractRepository, Repository
 from pkm.launchers.executables import Executables
 from pkm.utils.commons import NoSuchElementException
-from pkm.utils.files import CopyTransaction, is_empty_directory, is_relative_to
+from pkm.utils.files import CopyTransaction, is_empty_directory, is_relative_to, temp_dir
+from pkm.utils.properties import cached_property
 from pkm.utils.types import Serializable
-from pkm.utils.iterators import first_or_none
 
 
 class SharedPackagesRepository(AbstractRepository):
 
-    def __init__(self, workspace: Path, base_repository: Repository):
+    def __init__(self, workspace: Path, base_repository: Repository, exclude: Iterable[str] = ()):
         super().__init__("shared")
         self._workspace = workspace
         self._base_repo = base_repository
+        self._exclude = {PackageDescriptor.package_name_key(it) for it in exclude}
 
-    def remove_unused_packages(self, package_users: Iterator[Environment]):
-        used_packages: Set[str] = set()
+    @staticmethod
+    def remove_unused(workspace: Path, package_users: Iterable[Environment]):
+        """
+        remove the shared packages that none of the given `package_users` uses
+        :param workspace: the directory that holds the shared packages
+        :param package_users: all the environments that may use the shared packages
+        """
+        if not workspace.is_dir():
+            return
+
+        used_packages: Set[Path] = set()
         for package_user in package_users:
-            for used_package in package_user.site_packages.installed_packages():
-                if (shared_marker := used_package.dist_info.path / "SHARED").exists():
-                    used_packages.add(shared_marker.read_text())
+            sites = [package_user.site_packages, *(
+                it.installation_target.site_packages for it in package_user.package_containers.containers())]
+
+            for site in sites:
+                for used_package in site.installed_packages():
+                    if (shared_marker := used_package.dist_info.path / "SHARED").exists():
+                        used_packages.add(Path(shared_marker.read_text()).resolve())
 
-        for package_dir in self._workspace.iterdir():
+        for package_dir in workspace.iterdir():
             if not package_dir.is_dir():
                 continue
 
@@ -47,7 +61,7 @@ class SharedPackagesRepository(AbstractRepository):
                     if not shared_dir.is_dir():
                         continue
 
-                    if str(shared_dir.absolute()) not in used_packages:
+                    if shared_dir.resolve() not in used_packages:
                         shutil.rmtree(shared_dir)
 
                 if is_empty_directory(version_dir):
@@ -57,20 +71,16 @@ class SharedPackagesRepository(AbstractRepository):
                 package_dir.rmdir()
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
-        packages_dir = self._workspace / dependency.package_name
         packages = self._base_repo.match(dependency, env)
-        return self._sort_by_priority([
-            _SharedPackage(p, packages_dir / str(p.version))
-            for p in packages
-        ])
+        if dependency.required_url() or dependency.package_name_key in self._exclude:
+            return packages
 
-    @staticmethod
-    def _sort_by_priority(packages: List[Package]) -> List[Package]:
-        def key(p: Package):
-            return 0 if isinstance(p, _SharedPackage) else 1
-
-        packages.sort(key=key)
-        return packages
+        packages_dir = self._workspace / dependency.package_name_key
+        return [
+            # the content of a project may change without changing its version
+            p if isinstance(p, Project) else _SharedPackage(p, packages_dir / str(p.version))
+            for p in packages
+        ]
 
     def accepted_url_protocols(self) -> Iterable[str]:
         return self._base_repo.accepted_url_protocols()
@@ -79,11 +89,18 @@ class SharedPackagesRepository(AbstractRepository):
         return self._base_repo.accept_non_url_packages()
 
 
-@dataclass
 class _SharedPackageArtifact:
-    path: Path
-    metadata: PackageMetadata
-    compatibility_tags: str
+
+    def __init__(self, path: Path):
+        self.path = path
+
+    @property
+    def compatibility_tags(self) -> str:
+        return self.path.name
+
+    @cached_property
+    def metadata(self) -> PackageMetadata:
+        return PackageMetadata.load(self.path / "dist-info/METADATA")
 
 
 class _SharedPackage(Package):
@@ -95,14 +112,6 @@ class _SharedPackage(Package):
         if isinstance(package, Serializable):
             self.__getstate__ = self._getstate
 
-        if shared_path.exists():
-            self._artifacts = [
-                _SharedPackageArtifact(artifact, PackageMetadata.load(artifact / "dist-info/METADATA"), artifact.name)
-                for artifact in shared_path.iterdir()
-            ]
-        else:
-            self._artifacts = []
-
     def _getstate(self):
         return [self._package, self._shared_path]
 
@@ -113,11 +122,18 @@ class _SharedPackage(Package):
     def descriptor(self) -> PackageDescriptor:
         return self._package.descriptor
 
+    @property
+    def published_metadata(self) -> Optional[PackageMetadata]:
+        return self._package.published_metadata
+
     def _shared_artifact_for(self, env: Environment) -> Optional[_SharedPackageArtifact]:
+        if not self._shared_path.is_dir():
+            return None
+
         try:
             return max(
-                ((a, s) for a in self._artifacts
-                 if (s := env.compatibility_tag_score(a.compatibility_tag)) is not None),
+                ((a, s) for a in map(_SharedPackageArtifact, self._shared_path.iterdir())
+                 if (s := env.compatibility_tag_score(a.compatibility_tags)) is not None),
                 key=lambda it: it[1]
             )[0]
         except ValueError:
@@ -128,11 +144,9 @@ class _SharedPackage(Package):
             extras: Optional[List[str]] = None) -> List["Dependency"]:
 
         if artifact := self._shared_artifact_for(target.env):
-            deps = artifact.metadata.dependencies
-        else:
-            deps = self._package.dependencies(target)
+            return [d for d in artifact.metadata.dependencies if d.is_applicable_for(target.env, extras)]
 
-        return [d for d in deps if d.is_applicable_for(target.env, extras)]
+        return self._package.dependencies(target, extras)
 
     def is_compatible_with(self, env: "Environment") -> bool:
         return self._package.is_compatible_with(env)
@@ -140,86 +154,87 @@ class _SharedPackage(Package):
     def install_to(
             self, target: "PackageInstallationTarget", user_request: Optional["Dependency"] = None,
             store_mode: StoreMode = StoreMode.AUTO):
-        if shared := self._shared_artifact_for(target.env):
-            _link_shared(self.descriptor, shared, target)
+        if store_mode == StoreMode.EDITABLE:
+            self._package.install_to(target, user_request, store_mode)
+        elif shared := self._shared_artifact_for(target.env):
+            _link_shared(self.descriptor, shared, target, user_request)
         else:
             self._package.install_to(target, user_request, store_mode)
             if shared := _move_to_shared(self._package.descriptor, target, self._shared_path):
-                _link_shared(self.descriptor, shared, target)
-
-
-def _copy_records(root: Path, shared: Path, records: List[Path]) -> List[Path]:
-    shared.mkdir(parents=True)
-    records_left = []
-    for record in records:
-        if is_relative_to(record, root):  # the path may lead out of the required source
-            shared_path = shared / record.relative_to(root)
-            if record.is_dir():
-                shared_path.mkdir(exist_ok=True, parents=True)
-            elif record.exists():
-                shared_path.parent.mkdir(exist_ok=True, parents=True)
-                shutil.copy(record, shared_path)
-        else:
-            records_left.append(record)
-    return records_left
+                _link_shared(self.descriptor, shared, target, user_request)
 
 
 def _move_to_shared(package: PackageDescriptor,
                     target: PackageInstallationTarget, shared_path: Path) -> Optional[_SharedPackageArtifact]:
-    psname = (package.expected_src_package_name + "-").lower()
-
-    for site in ('purelib', 'platlib'):
-        dist_info_path = first_or_none(
-            it for it in Path(getattr(target, site)).glob("*.dist-info") if it.name.lower().startswith(psname))
-
-        if dist_info_path:
-            break
-    else:
+    # other packages may be installed to this target at the same time, its own site-packages should not be reloaded
+    site_packages = SitePackages(target.env, Path(target.purelib), Path(target.platlib))
+    if not (installed := site_packages.installed_package(package.name)):
         raise NoSuchElementException(f"package: {package} is reported as installed but could not be find inside venv")
 
-    dist_info = DistInfo.load(dist_info_path)
+    dist_info = installed.dist_info
+    site = 'purelib' if installed.is_in_purelib() else 'platlib'
 
     iinfo = dist_info.load_installation_info()
-    if iinfo.compatibility_tag:
-        compatibility_tags = iinfo.compatibility_tag
-        shared_target = shared_path / compatibility_tags
-    else:
+    if not iinfo or not iinfo.compatibility_tag or iinfo.containerized:
         return None  # TODO should probably notify the user that sharing is impossible for this package
 
-    records = list(dist_info.installed_files())
+    site_path, bin_path = dist_info.path.parent.resolve(), Path(target.scripts).resolve()
+    # script entrypoints should be re-generated
+    script_entrypoints = {e.name for e in dist_info.load_entrypoints_cfg().entrypoints if e.is_script()}
+    script_entrypoints.update([f"{it}.exe" for it in script_entrypoints])
+
+    site_files: List[Path] = []
+    scripts: List[Path] = []
+
+    for file in set(dist_info.installed_files()):
+        if is_relative_to(file, site_path / dist_info.path.name) or file.is_dir() or not file.exists():
+            continue
+        elif is_relative_to(file, bin_path):
+            if str(file.relative_to(bin_path)) not in script_entrypoints:
+                scripts.append(file)
+        elif is_relative_to(file, site_path) and not (file.suffix == '.pth' and file.parent == site_path):
+            site_files.append(file)
+        else:
+            # cannot be used by other environments from its shared location (data files, headers, import hooks, ..)
+            return None
 
-    # filter dist info records:
-    records = [
-        r for r in records
-        if not is_relative_to(r, dist_info.path)]
+    shared_target = shared_path / iinfo.compatibility_tag
+    shared_path.parent.mkdir(parents=True, exist_ok=True)
 
-    # copy site
-    shared_purelib = shared_target / site
-    records = _copy_records(dist_info.path.parent, shared_purelib, records)
+    # the artifact is put in place only once it is complete
+    with TemporaryDirectory(dir=shared_path.parent) as tdir:
+        artifact_dir = Path(tdir) / "artifact"
+        for source_dir, files, shared_dir in (
+                (site_path, site_files, artifact_dir / site), (bin_path, scripts, artifact_dir / "bin")):
 
-    # copy scripts
-    script_entrypoints = {e.name for e in dist_info.load_entrypoints_cfg().entrypoints if e.is_script()}
-    bin_path = Path(target.scripts)
-    shared_bin = shared_target / "bin"
+            shared_dir.mkdir(parents=True)
+            for file in files:
+                shared_file = shared_dir / file.relative_to(source_dir)
+                shared_file.parent.mkdir(parents=True, exist_ok=True)
+                shutil.copy2(file, shared_file)
 
-    # filter script entrypoints - they should be re-generated
-    records = [r for r in records if not is_relative_to(r, bin_path) or r.stem not in script_entrypoints]
-    records = _copy_records(bin_path, shared_bin, records)
+        for script in scripts:
+            Executables.unpatch_shabang_of_interpreter(
+                artifact_dir / "bin" / script.relative_to(bin_path), target.env.interpreter_path)
 
-    # copy dist-info
-    shutil.copytree(dist_info.path, shared_target / 'dist-info')
+        shutil.copytree(
+            dist_info.path, artifact_dir / "dist-info", ignore=shutil.ignore_patterns("RECORD", "REQUESTED"))
 
-    if records:
-        warnings.warn(f"{len(records)} unsharable records found in package: {package.name} {package.version}: "
-                      f"{', '.join(str(r) for r in records)}")
+        shared_path.mkdir(exist_ok=True)
+        try:
+            artifact_dir.replace(shared_target)
+        except OSError:
+            if not shared_target.exists():  # otherwise, another environment shared it in the meantime
+                raise
 
     # uninstall the original package
-    InstalledPackage(dist_info).uninstall()
+    installed.uninstall()
 
-    return _SharedPackageArtifact(shared_target, dist_info.load_metadata_cfg(), shared_target.name)
+    return _SharedPackageArtifact(shared_target)
 
 
-def _link_shared(package: PackageDescriptor, shared: _SharedPackageArtifact, target: PackageInstallationTarget):
+def _link_shared(package: PackageDescriptor, shared: _SharedPackageArtifact, target: PackageInstallationTarget,
+                 user_request: Optional["Dependency"] = None):
     with CopyTransaction() as ct:
 
         package_prefix = f"{package.expected_src_package_name}-{package.version}"
@@ -228,30 +243,31 @@ def _link_shared(package: PackageDescriptor, shared: _SharedPackageArtifact, tar
         site_path = Path(getattr(target, site_name))
 
         # first link the site data
-        purelib_link = PthLink(site_path / f"{package_prefix}.pth", [shared.path / site_name])
-        purelib_link.save()
-        ct.touch(purelib_link.path)
+        PthLink(ct.overwrite(site_path / f"{package_prefix}.pth"), [shared.path / site_name]).save()
 
         # now create all script entrypoints
         shared_distinfo = DistInfo.load(shared.path / "dist-info", non_standard_name_ok=True)
         bin_dir = Path(target.scripts)
         for entrypoint in shared_distinfo.load_entrypoints_cfg().entrypoints:
             if entrypoint.is_script():
-                ct.touch(Executables.generate_for_entrypoint(target.env, entrypoint, bin_dir))
+                with temp_dir() as executables_path:
+                    executable = Executables.generate_for_entrypoint(target.env, entrypoint, executables_path)
+                    ct.copy(executable, bin_dir / executable.name)
 
         # then, patch non entrypoint scripts
-        for script in (shared.path / 'bin').iterdir():
-            target_script = bin_dir / script.name
-            Executables.patch_shabang_for_interpreter(script, target_script, target.env.interpreter_path)
-            ct.touch(target_script)
+        if (shared_bin := shared.path / 'bin').exists():
+            ct.copy_tree(
+                shared_bin, bin_dir,
+                file_copy=lambda s, t: Executables.patch_shabang_for_interpreter(s, t, target.env.interpreter_path))
 
         # we are almost done, copy dist-info
-        distinfo_path = site_path / f"{package_prefix}.dist-info"
-        ct.copy_tree(shared_distinfo.path, distinfo_path, lambda it: it.name != "RECORD")
-        shared_marker = (distinfo_path / "SHARED")
-        shared_marker.write_text(str(shared.path.absolute()))
-        ct.touch(shared_marker)
+        dist_info = DistInfo.load(site_path / f"{package_prefix}.dist-info")
+        ct.copy_tree(shared_distinfo.path, dist_info.path, lambda it: it.name not in ("RECORD", "REQUESTED"))
+        ct.overwrite(dist_info.path / "SHARED").write_text(str(shared.path.resolve()))
+        if user_request:
+            ct.overwrite(dist_info.user_requested_path())
+            dist_info.mark_as_user_requested(user_request)
 
         # and finally, sign the installation
-        record_path = distinfo_path / "RECORD"
-        RecordsFileConfiguration.load(record_path).sign_files(ct.copied_files, site_path).save()
+        record_files = list(ct.copied_files)
+        RecordsFileConfiguration.load(ct.overwrite(dist_info.record_path())).sign_files(record_files, site_path).save()
-- 
2.43.0


From fe40e6e7baf276cb84d291f36bdf2115e53d516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:44 +0000
Subject: [PATCH 082/122] fix: the torch repository finds its compatibility
 table, supports machines without a driver and orders builds by release and
 cuda version

---
 .../cuda_compatibility.py                     | 39 +++++++++++++------
 .../torch_repository.py                       | 19 ++++-----
 .../src/download_torch_pkm_repo/utils/html.py | 21 ++++++----
 3 files changed, 48 insertions(+), 31 deletions(-)

diff --git a/repositories/download-torch-pkm-repo/src/download_torch_pkm_repo/cuda_compatibility.py b/repositories/download-torch-pkm-repo/src/download_torch_pkm_repo/cuda_compatibility.py
index e97b456..b03f0e4 100644
--- a/repositories/download-torch-pkm-repo/src/download_torch_pkm_repo/cuda_compatibility.py
+++ b/repositories/download-torch-pkm-repo/src/download_torch_pkm_repo/cuda_compatibility.py
@@ -45,13 +45,19 @@ class CudaCompatibilityTable:
 
     @cached_property
     def installed_nvidia_driver_version(self) -> Optional[Version]:
-        proc = subprocess.run(
-            ["nvidia-smi", "--query-gpu=driver_version", "--format=csv"],
-            capture_output=True
-        )
+        """
+        :return: the version of the installed nvidia driver or None if there is no (working) nvidia driver
+        """
+        try:
+            proc = subprocess.run(
+                ["nvidia-smi", "--query-gpu=driver_version", "--format=csv"],
+                capture_output=True
+            )
 
-        proc.check_returncode()
-        return Version.parse(proc.stdout.splitlines(False)[-1].decode())
+            proc.check_returncode()
+            return StandardVersion.parse(proc.stdout.decode().strip().splitlines()[-1].strip())
+        except (OSError, subprocess.SubprocessError, ValueError, IndexError):
+            return None
 
     def compatible_cuda_versions(
             self, nvidia_driver: Optional[Version] = None,
@@ -61,6 +67,9 @@ class CudaCompatibilityTable:
         nvidia_driver = nvidia_driver or self.installed_nvidia_driver_version
         result: List[StandardVersion] = []
 
+        if not nvidia_driver:
+            return result
+
         for spec in self._specs:
             if (is_windows and spec.windows_spec.allows_version(nvidia_driver)) or \
                     (not is_windows and spec.linux_spec.allows_version(nvidia_driver)):
@@ -72,7 +81,7 @@ class CudaCompatibilityTable:
     def load(cls, config_file: Optional[Path] = None) -> CudaCompatibilityTable:
 
         if not config_file:
-            with ResourcePath("pkm_torch_repository.resources", "cuda-compatibilities.toml").use() as resources:
+            with ResourcePath("download_torch_pkm_repo.resources", "cuda-compatibilities.toml").use() as resources:
                 return cls.load(resources)
 
         config_backup, _ = toml.load(config_file)
@@ -93,16 +102,22 @@ class CudaCompatibilityTable:
             for row in compatibility_table_rows:
                 columns = [td.data() for td in row.children if td.tag == 'td']
                 specs.append(_CudaVersionSpec(
-                    StandardVersion.parse(columns[0].split(" ")[1]),
-                    VersionSpecifier.parse(columns[1]),
-                    VersionSpecifier.parse(columns[2]),
+                    StandardVersion.parse(columns[0].split()[1]),
+                    VersionSpecifier.parse(columns[1].strip()),
+                    VersionSpecifier.parse(columns[2].strip()),
                 ))
 
-            config_backup["version-spec"] = [spec.to_config() for spec in specs]
-            config_file.write_text(toml.dumps(config_backup))
+            if not specs:
+                raise ValueError("the compatibility table was not found")
 
         except Exception:  # noqa
             warnings.warn("could not update cuda compatibility table, will use old known compatibility specs versions")
             specs = [_CudaVersionSpec.from_config(spec) for spec in config_backup["version-spec"]]
+        else:
+            config_backup["version-spec"] = [spec.to_config() for spec in specs]
+            try:
+                config_file.write_text(toml.dumps(config_backup))
+            except OSError:
+                warnings.warn(f"could not store the updated cuda compatibility table in {config_file}")
 
         return CudaCompatibilityTable(specs)
diff --git a/repositories/download-torch-pkm-repo/src/download_torch_pkm_repo/torch_repository.py b/repositories/download-torch-pkm-repo/src/download_torch_pkm_repo/torch_repository.py
index e9ea80e..2ae3d06 100644
--- a/repositories/download-torch-pkm-repo/src/download_torch_pkm_repo/torch_repository.py
+++ b/repositories/download-torch-pkm-repo/src/download_torch_pkm_repo/torch_repository.py
@@ -18,10 +18,11 @@ class DownloadTorchRepository(AbstractRepository):
         super().__init__(name)
         self._simple_repo = SimpleRepository('torch', "https://download.pytorch.org/whl")
 
-        self._compatible_locals = {
-            f"cu{''.join(str(r) for r in v.release)}"
-            for v in compatible_cuda_versions
-        }
+        # the builds are labeled by the major and minor parts of their cuda version (e.g., 10.2.89 -> cu102)
+        self._compatible_locals: Dict[str, Tuple[int, int]] = {}
+        for v in compatible_cuda_versions:
+            major, minor = (tuple(v.release) + (0,))[:2]
+            self._compatible_locals[f"cu{major}{minor}"] = (major, minor)
 
         self._allow_cpu = allow_cpu
 
@@ -40,16 +41,12 @@ class DownloadTorchRepository(AbstractRepository):
 
         return self._sort_by_priority(matches)
 
-    @staticmethod
-    def _sort_by_priority(packages: List[Package]) -> List[Package]:
+    def _sort_by_priority(self, packages: List[Package]) -> List[Package]:
         def key(p: Package) -> Tuple:
             version = cast(StandardVersion, p.version)
-            ll = version.local_label
+            cuda = self._compatible_locals.get(version.local_label)
 
-            arch = 0 if not ll or ll == 'cpu' else 1
-            cuda = int(ll[len('cu'):]) if ll and ll.startswith("cu") else 0
-
-            return arch, p.version, cuda
+            return cuda is not None, version.without_local(), cuda or (0, 0), version
 
         packages.sort(key=key, reverse=True)
         return packages
diff --git a/repositories/download-torch-pkm-repo/src/download_torch_pkm_repo/utils/html.py b/repositories/download-torch-pkm-repo/src/download_torch_pkm_repo/utils/html.py
index a6e8273..bece49e 100644
--- a/repositories/download-torch-pkm-repo/src/download_torch_pkm_repo/utils/html.py
+++ b/repositories/download-torch-pkm-repo/src/download_torch_pkm_repo/utils/html.py
@@ -2,7 +2,6 @@ from __future__ import annotations
 from html.parser import HTMLParser
 from dataclasses import dataclass
 from typing import Callable, Dict, List, Union, Iterator
-from pkm.utils.commons import IllegalStateException
 
 ELM_MATCHER = Callable[["_Element"], bool]
 
@@ -14,7 +13,7 @@ class Element:
     children: List[Element]
 
     def data(self) -> str:
-        return ''.join(d.attrs['value'] for d in self.children if d.tag == 'data')
+        return ''.join(d.attrs['value'] if d.tag == 'data' else d.data() for d in self.children)
 
     def _lookup(self, match: ELM_MATCHER, roots: bool) -> Iterator[Element]:
         nodes = [self]
@@ -38,9 +37,12 @@ class Element:
                 yield from matched.select(*rest)
 
 
+_VOID_TAGS = {'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'track', 'wbr'}
+
+
 class BasicDomParser(HTMLParser):
 
-    def __init__(self, *, convert_charrefs: bool = ...) -> None:
+    def __init__(self, *, convert_charrefs: bool = True) -> None:
         super().__init__(convert_charrefs=convert_charrefs)
         self.dom = Element('root', {}, [])
         self._node: List[Element] = [self.dom]
@@ -50,13 +52,16 @@ class BasicDomParser(HTMLParser):
             tag, {attr: (value if value is not None else "true") for attr, value in attrs}, []
         )
 
-        self._node.append(new_element)
+        self._node[-1].children.append(new_element)
+        if tag not in _VOID_TAGS:
+            self._node.append(new_element)
 
     def handle_endtag(self, tag: str) -> None:
-        e = self._node.pop()
-        if e.tag != tag:
-            raise IllegalStateException(f"expecting {e.tag} to end but found an ending for {tag}")
-        self._node[-1].children.append(e)
+        # elements may be left unclosed (e.g., <p>, <li>), and some endings may have no start
+        for i in range(len(self._node) - 1, 0, -1):
+            if self._node[i].tag == tag:
+                del self._node[i:]
+                break
 
     def handle_data(self, data: str) -> None:
         data_element = Element(
-- 
2.43.0


From bf1ac5157b4ff67d5d033d2a9650bdb112ebc98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:48 +0000
Subject: [PATCH 083/122] fix: a version specifier that is followed by other
 text is rejected

---
 pkm/src/pkm/api/versions/version_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index f53f11a..864e244 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -23,7 +23,12 @@ def parse_version(version_str: str) -> Version:
 
 
 def parse_specifier(specifier_str: str) -> VersionSpecifier:
-    return VersionParser(specifier_str).read_specifier()
+    parser = VersionParser(specifier_str)
+    specifier = parser.read_specifier()
+    parser.match_ws()
+    if parser.is_not_empty():
+        parser.raise_err("unexpected text after the version specifier")
+    return specifier
 
 
 _PRE_RELEASE_TYPE_NORMALIZER = {
-- 
2.43.0


From ab662eb5cd3d24adbed614b19df7ca040d918cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:53 +0000
Subject: [PATCH 084/122] fix: conda builds for other interpreters are not
 offered, conda specifications are read by their meaning, downloaded packages
 are verified and recorded

---
 .../conda_pkm_repo/conda_channel_subdir.py    | 147 +++++++++++++-----
 .../src/conda_pkm_repo/conda_distribution.py  |  91 +++++++++--
 .../src/conda_pkm_repo/conda_repo.py          |  11 +-
 .../src/conda_pkm_repo/pkm_extension.py       |   4 +-
 4 files changed, 190 insertions(+), 63 deletions(-)

diff --git a/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_channel_subdir.py b/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_channel_subdir.py
index 513987e..c3a1dc6 100644
--- a/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_channel_subdir.py
+++ b/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_channel_subdir.py
@@ -2,8 +2,8 @@ from __future__ import annotations
 import re
 from collections import defaultdict
 
-from dataclasses import replace, dataclass
-from typing import Dict, Any, Optional, List, cast, Tuple
+from dataclasses import dataclass
+from typing import Dict, Any, Optional, List, Tuple
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.packages.package_installation_info import PackageInstallationInfo, StoreMode
@@ -14,14 +14,18 @@ from pkm.api.pkm import pkm
 from pkm.api.versions.version import Version, StandardVersion, UrlVersion
 from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions, VersionMatch, VersionsUnion, \
     StandardVersionRange, RestrictAllVersions
+from pkm.api.distributions.wheel_distribution import InstallationException
 from pkm.utils.commons import UnsupportedOperationException
 from pkm.utils.hashes import HashBuilder
-from pkm.utils.iterators import first_or_none, groupby
+from pkm.utils.http.http_client import FetchedResource
+from pkm.utils.iterators import groupby
 from pkm.utils.properties import cached_property
 from pkm.utils.sequences import strs
+from pkm.utils.types import Comparable
 from conda_pkm_repo.conda_distribution import CondaDistribution
 
-_RELATIVE_OPS_PREFIXES = "><=!~"
+_DEPENDENCY_RX = re.compile(r"(?P<name>[\w.\-]+)\s*(?P<version>[^\s].*?)?(?:\s+(?P<build>[^\s]+))?\s*")
+_VERSION_TERM_RX = re.compile(r"(?P<operator>>=|<=|==|!=|~=|>|<|=|)\s*(?P<version>[^\s]+)")
 
 _SUBDIR_BY_PLATFORM = {
     "linux-64-x86": "linux-64",
@@ -42,7 +46,7 @@ _SUBDIR_TO_OS_CTAG = {
     "osx-64": "macosx_10_14_x86_64",
     "win-64": "win_amd64",
     "win-32": "win32",
-    "any": "any"
+    "noarch": "any"
 }
 
 _PLEASE_FILL_ISSUE = "if it works with regular conda, please fill an issue so that we can add it too"
@@ -82,7 +86,7 @@ class CondaChannelSubdir:
         packages = [CondaSubdirPackage(name, version, artifacts)
                     for (name, version), artifacts in package_to_artifacts.items()]
 
-        self.packages = groupby(packages, lambda it: it.pname)
+        self.packages = groupby(packages, lambda it: PackageDescriptor.package_name_key(it.pname))
         self.repodata = repodata
 
     def __repr__(self):
@@ -95,14 +99,14 @@ class CondaChannelSubdir:
         assert build, "build must be provided"
 
         build_matcher = re.compile(re.escape(build).replace("\\*", ".*"))
-        package_versions = self.packages.get(package) or []
-        version_spec = AllowAllVersions if version == '*' else VersionSpecifier.parse(f"=={version}")
+        package_versions = self.general_package(package)
+        version_spec = _parse_specifier(version)
         allowed_packages = [p for p in package_versions if version_spec.allows_version(p.version)]
         return [artifact for p in allowed_packages for artifact in p.artifacts
-                if build_matcher.match(artifact.info['build'])]
+                if build_matcher.fullmatch(artifact.info['build'])]
 
     def general_package(self, package: str) -> List[Package]:
-        return self.packages.get(package) or []
+        return list(self.packages.get(PackageDescriptor.package_name_key(package)) or [])
 
     def single_artifact_package(self, artifact: str) -> Optional[Package]:
         if package_info := self.repodata["packages"].get(artifact):
@@ -113,13 +117,53 @@ class CondaChannelSubdir:
 
 
 def _parse_specifier(spec: str) -> VersionSpecifier:
-    if spec[0] in _RELATIVE_OPS_PREFIXES:
-        return VersionSpecifier.parse(spec)
-    if spec == "*":
+    """
+    :param spec: conda version specification: alternatives separated by `|`,
+                 each one consists of terms separated by `,` that should all hold
+    :return: the version specifier that is equivalent to `spec`,
+             alternatives without such a specifier are left out (e.g., ranges of openssl-like versions: `>=1.1.1k`)
+    """
+    result = RestrictAllVersions
+    for option in spec.split("|"):
+        try:
+            option_spec = AllowAllVersions
+            for term in option.split(","):
+                option_spec = option_spec.intersect_with(_parse_specifier_term(term.strip()))
+        except ValueError:
+            continue
+        result = result.union_with(option_spec)
+    return result
+
+
+def _parse_specifier_term(term: str) -> VersionSpecifier:
+    if not (match := _VERSION_TERM_RX.fullmatch(term)):
+        raise ValueError(f"malformed version specification: {term}")
+
+    operator, version = match.groups()
+    if version == "*":
         return AllowAllVersions
-    if spec.endswith(".*"):
-        return VersionSpecifier.parse(f"~={spec[:-2]}.0")
-    return VersionMatch(Version.parse(spec))
+
+    if operator in ("", "=", "==", "!="):
+        is_prefix = operator == "=" or version.endswith("*")
+        version = version.rstrip("*").rstrip(".") if is_prefix else version
+        if is_prefix or operator == "!=":
+            return VersionSpecifier.parse(f"{'!=' if operator == '!=' else '=='}{version}{'.*' if is_prefix else ''}")
+        return VersionMatch(Version.parse(version))  # can be of any format
+
+    return VersionSpecifier.parse(operator + (version[:-2] if version.endswith(".*") else version))
+
+
+def parse_dependency_parts(dependency: str) -> Tuple[str, Optional[str], Optional[str]]:
+    """
+    :param dependency: the text of a conda dependency
+    :return: the name, version specification and build specification in it (the later two may be missing)
+    """
+    name, version, build = _DEPENDENCY_RX.fullmatch(dependency).groups()
+
+    # spaces are allowed next to the separators and after the operators
+    if build and (build[0] in ",|" or version[-1] in ",|<>=!~"):
+        version, build = f"{version}{build}", None
+    return name, version, build
 
 
 @dataclass
@@ -137,17 +181,12 @@ class CondaSubdirPackageArtifact:
         return [self._parse_dependency(d) for d in dependencies]
 
     def _parse_dependency(self, dstr: str) -> Dependency:
-        parts = dstr.split(" ")
-        if len(parts) == 1:
-            return Dependency(parts[0])
-        elif len(parts) == 2:
-            options = [_parse_specifier(it) for it in parts[1].split("|")]
-            if len(options) == 1:
-                return Dependency(parts[0], options[0])
-            return Dependency(parts[0], VersionsUnion(options))
+        name, version, build = parse_dependency_parts(dstr)
+        if not build or build == '*' or name == 'python':
+            return Dependency(name, _parse_specifier(version or '*'))
         else:
 
-            artifacts = self.container.match_artifacts_by_build(parts[0], parts[1], parts[2])
+            artifacts = self.container.match_artifacts_by_build(name, version, build)
             matches = [
                 VersionMatch(UrlVersion.parse(f"conda+{self.container.channel}/{self.container.subdir}/{a.artifact}"))
                 for a in artifacts]
@@ -159,7 +198,7 @@ class CondaSubdirPackageArtifact:
             else:
                 spec = VersionsUnion(matches)
 
-            return Dependency(parts[0], spec)
+            return Dependency(name, spec)
 
     def dependencies(self, environment: "Environment", extras: Optional[List[str]] = None) -> List["Dependency"]:
         return [
@@ -168,30 +207,51 @@ class CondaSubdirPackageArtifact:
 
     @cached_property
     def required_python(self) -> VersionSpecifier:
-        if python := first_or_none(d for d in self._all_dependencies if d.package_name == 'python'):
-            return python.version_spec
-        else:
-            return AllowAllVersions
+        required_python = AllowAllVersions
+        for dependency in self._all_dependencies:
+            if dependency.package_name == 'python':
+                required_python = required_python.intersect_with(dependency.version_spec)
+        return required_python
 
     @cached_property
     def compatibility_tag(self) -> str:
         subdir = self.container.subdir
         rp = self.required_python
-        if rp is AllowAllVersions:
-            py_ctag = "py2.py3"
-        elif isinstance(rp, StandardVersionRange):
-            min_python: StandardVersion = cast(StandardVersion, rp.min)
-            if not rp.includes_min:
-                min_python = replace(min_python, release=(*min_python.release[:-1], min_python.release[-1] + 1))
+        min_python: Optional[Version] = None
+        if isinstance(rp, StandardVersionRange):
+            min_python = rp.min
+        elif isinstance(rp, VersionMatch) and rp.allow:
+            min_python = rp.version
+
+        # the upper bound cannot be described by a tag, see `is_compatible_with`
+        py_ctag = "py2.py3"
+        if isinstance(min_python, StandardVersion) and min_python.release[0] >= 3:
             py_ctag = 'py' + ''.join(strs(min_python.release[:2]))
-        else:
-            raise UnsupportedOperationException(f"could not parse required python: {rp}")
 
         return f"{py_ctag}-none-{_SUBDIR_TO_OS_CTAG[subdir]}"
 
+    def compatibility_score(self, env: Environment) -> Optional[Comparable]:
+        """
+        :param env: the environment to check
+        :return: score for the compatibility of this artifact with `env` (higher is better), None if it is incompatible
+        """
+        if not self.required_python.allows_version(env.interpreter_version) or \
+                any(d.version_spec is RestrictAllVersions for d in self.dependencies(env, [])):
+            return None
+        return env.compatibility_tag_score(self.compatibility_tag)
+
     def build_number(self) -> int:
         return self.info["build_number"]
 
+    def is_valid(self, resource: FetchedResource) -> bool:
+        """
+        :param resource: the resource that was downloaded for this artifact
+        :return: True if its digests are those that the channel published
+        """
+        return all(
+            resource.is_hash_valid(function, self.info[function].lower())
+            for function in ("sha256", "md5") if self.info.get(function))
+
 
 class CondaSubdirPackage(Package):
 
@@ -204,8 +264,7 @@ class CondaSubdirPackage(Package):
         scored_artifacts = {
             a: (tag_score, a.build_number())
             for a in self.artifacts
-            if (tag_score := env.compatibility_tag_score(a.compatibility_tag)) is not None
-               and all(d.version_spec is not RestrictAllVersions for d in a.dependencies(env, []))  # noqa
+            if (tag_score := a.compatibility_score(env)) is not None
         }
 
         if not scored_artifacts:
@@ -234,7 +293,11 @@ class CondaSubdirPackage(Package):
             raise UnsupportedOperationException("asking to install inside unsupported environment")
 
         url = f"{artifact.container.channel}/{artifact.container.subdir}/{artifact.artifact}"
-        artifact_path = pkm.httpclient.fetch_resource(url).data
-        dist = CondaDistribution(self.descriptor, artifact_path)
+        resource = pkm.httpclient.fetch_resource(url)
+        if not artifact.is_valid(resource):
+            resource.delete()  # it should be fetched again next time
+            raise InstallationException(f"invalid digest for a resource received from {url}")
+
+        dist = CondaDistribution(self.descriptor, resource.data, artifact.dependencies(target.env))
         dist.install_to(target, user_request, PackageInstallationInfo(
             compatibility_tag=artifact.compatibility_tag, store_mode=StoreMode.COPY))
diff --git a/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_distribution.py b/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_distribution.py
index be7cfcd..1a3c2c1 100644
--- a/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_distribution.py
+++ b/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_distribution.py
@@ -4,7 +4,7 @@ import os
 import re
 import shutil
 from pathlib import Path
-from typing import Optional, Dict, Set
+from typing import Optional, Dict, List, Set, Tuple
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.distinfo import DistInfo
@@ -17,7 +17,7 @@ from pkm.api.packages.package_installation import PackageInstallationTarget
 from pkm.api.packages.package_metadata import PackageMetadata
 from pkm.api.versions.version import Version
 from pkm.utils.archives import extract_archive
-from pkm.utils.files import temp_dir, path_to, CopyTransaction
+from pkm.utils.files import temp_dir, path_to, is_relative_to, CopyTransaction
 from pkm.utils.hashes import HashSignature, stream
 from pkm.utils.iterators import first_or_none
 from pkm.utils.processes import monitored_run
@@ -28,8 +28,9 @@ _PURELIB_UNIX_RX = re.compile(r"python\d+\.\d+")
 
 class CondaDistribution(Distribution):
 
-    def __init__(self, package: PackageDescriptor, bz2dist: Path):
+    def __init__(self, package: PackageDescriptor, bz2dist: Path, dependencies: Optional[List[Dependency]] = None):
         self._package = package
+        self._dependencies = dependencies or []
         self._dist = bz2dist
 
     @property
@@ -53,6 +54,7 @@ class CondaDistribution(Distribution):
         metadata.metadata_version = Version.parse("2.1")
         metadata.package_name = self.owner_package.name
         metadata.package_version = self.owner_package.version
+        metadata.dependencies = [d for d in self._dependencies if not d.required_url()]
         return metadata
 
     def install_to(self, target: "PackageInstallationTarget", user_request: Optional[Dependency] = None,
@@ -69,6 +71,7 @@ class CondaDistribution(Distribution):
 
             # first validate hashes
             signatures_by_path: Dict[Path, HashSignature] = {}
+            prefixes_by_path: Dict[Path, Tuple[bytes, bool]] = {}
             if not (paths_file := info_dir / "paths.json").exists():
                 raise InstallationException("unsigned package")
 
@@ -76,7 +79,10 @@ class CondaDistribution(Distribution):
             for path_data in paths_data:
                 path = tdir / path_data['_path']
 
-                if not path.exists():
+                if not is_relative_to(path, tdir):
+                    raise InstallationException(f"path: {path_data['_path']} is outside of the package")
+
+                if not path.is_file():
                     raise InstallationException(f"path: {path} was signed but not found")
 
                 hashcode = path_data['sha256']
@@ -88,12 +94,15 @@ class CondaDistribution(Distribution):
 
                 hashsig = HashSignature.create_urlsafe_base64_nopad_encoded('sha256', sha256)
                 signatures_by_path[path.relative_to(tdir)] = hashsig
+                if prefix := path_data.get('prefix_placeholder'):
+                    prefixes_by_path[path.relative_to(tdir)] = \
+                        prefix.encode(), path_data.get('file_mode', 'text') == 'binary'
 
             index = json.loads((info_dir / "index.json").read_text())
 
             def exec_installation_script(script_name: str):
-                env = {**os.environ, 'PREFIX': target.data, 'PKG_NAME': self._package.name,
-                       'PKG_VERSION': str(self._package.version), 'PKG_BUILDNUM': index['build_number']}
+                env = {**os.environ, 'PREFIX': str(target.data), 'PKG_NAME': self._package.name,
+                       'PKG_VERSION': str(self._package.version), 'PKG_BUILDNUM': str(index['build_number'])}
                 if target.env.operating_platform.has_windows_os():
                     if (script_path := info_dir / "Scripts" / f"{script_name}.bat").exists():
                         monitored_run(f"conda installation hook: {script_name}", [
@@ -116,7 +125,7 @@ class CondaDistribution(Distribution):
                 package_purelib_path = first_or_none(
                     p for p in (tdir / "lib").iterdir() if _PURELIB_UNIX_RX.match(p.name))
 
-                if package_purelib_path and package_lib_path.name != python_lib_path.name:
+                if package_purelib_path and package_purelib_path.name != python_lib_path.name:
                     new_purelib = package_purelib_path.parent / python_lib_path.name
                     for subpath in package_purelib_path.rglob("*"):
                         relocated_files[subpath.relative_to(tdir)] = \
@@ -132,38 +141,90 @@ class CondaDistribution(Distribution):
                 purelib_in_package_path = tdir / purelib_path.relative_to(data_path)
                 for file in files_to_link:
                     path = Path(file)
-                    precomputed_hash = signatures_by_path[path]
+                    if not (precomputed_hash := signatures_by_path.get(path)):
+                        raise InstallationException(f"path: {path} is not signed")
+                    prefix = prefixes_by_path.get(path)
                     path = relocated_files.get(path, path)
 
                     abs_path = tdir / path
-                    precomputed_record_hashes[str(path_to(purelib_in_package_path, abs_path))] = precomputed_hash
+                    if prefix:
+                        _replace_prefix(abs_path, *prefix, new_prefix=str(data_path).encode())
+                    else:
+                        precomputed_record_hashes[str(path_to(purelib_in_package_path, abs_path))] = precomputed_hash
 
                     target_path = data_path / path
                     parent = target_path.parent
                     if parent not in created_parents:
-                        parent.mkdir(exist_ok=True, parents=True)
+                        ct.mkdir(parent)
                         created_parents.add(parent)
 
                     ct.copy(abs_path, target_path)
 
                 dist_info_path = purelib_path / DistInfo.expected_dir_name(self.owner_package)
-                if not dist_info_path.exists():
+                if packaged_dist_info := first_or_none(
+                        file.parent for file in ct.copied_files
+                        if file.name == 'METADATA' and file.parent.parent == purelib_path
+                        and self._is_dist_info_of_package(file.parent)):
+                    dist_info_path = packaged_dist_info
+                else:
+                    for created in ('METADATA', 'WHEEL'):
+                        ct.overwrite(dist_info_path / created)
                     self._generate_dist_info(dist_info_path)
                 dist_info = DistInfo.load(dist_info_path)
 
-                # rewrite records
-                dist_info.record_path().unlink(missing_ok=True)
+                # rewrite the bookkeeping files, as they describe the environment that this package was built in
+                bookkeeping = {
+                    dist_info.record_path(), dist_info.path / 'INSTALLER',
+                    dist_info.user_requested_path(), dist_info.installation_info_path()}
+                for path in bookkeeping:
+                    if path.exists():
+                        ct.rm(path)
+
+                copied_files = [file for file in ct.copied_files if file.exists() and file not in bookkeeping]
+                ct.overwrite(dist_info.record_path())
                 records = dist_info.load_record_cfg()
-                precomputed_record_hashes.pop(str(path_to(purelib_in_package_path, records.path)), None)
-                copied_files = [file for file in ct.copied_files if file.name != 'RECORD' or file.exists()]
                 records.sign_files(copied_files, dist_info.path.parent, precomputed_record_hashes)
                 records.save()
 
+                ct.overwrite(dist_info.path / 'INSTALLER').write_text('pkm')
+                if user_request:
+                    ct.overwrite(dist_info.user_requested_path())
+                    dist_info.mark_as_user_requested(user_request)
+                if installation_info:
+                    ct.overwrite(dist_info.installation_info_path())
+                    dist_info.save_installation_info(installation_info)
+
                 exec_installation_script('post-link')
 
+    def _is_dist_info_of_package(self, path: Path) -> bool:
+        if path.suffix != '.dist-info':
+            return False
+        dist_info = DistInfo.load(path)
+        return PackageDescriptor.package_name_key(dist_info.package_name_by_dirname) == self._package.name_key \
+            and dist_info.package_version_by_dirname == self._package.version
+
     def extract_metadata(self, env: Optional["Environment"] = None) -> PackageMetadata:
         with temp_dir() as tdir:
             extract_archive(self._dist, tdir)
             if dist_info_path := first_or_none(tdir.rglob(f"*{DistInfo.expected_dir_name(self.owner_package)}")):
                 return DistInfo.load(dist_info_path).load_metadata_cfg()
             return self._generate_default_metadata()
+
+
+def _replace_prefix(path: Path, prefix: bytes, is_binary: bool, new_prefix: bytes):
+    """
+    replace the `prefix` that the package was built in by the one that it is going to be installed in
+    """
+    content = path.read_bytes()
+    if is_binary:  # zero terminated strings, their offsets must not change
+        def replacement(match) -> bytes:
+            original = match.group()
+            replaced = original.replace(prefix, new_prefix)
+            if len(replaced) > len(original):
+                raise InstallationException(f"the installation path is too long for {path.name}")
+            return replaced + b'\0' * (len(original) - len(replaced))
+
+        content = re.sub(re.escape(prefix) + b'[^\0]*', replacement, content)
+    else:
+        content = content.replace(prefix, new_prefix)
+    path.write_bytes(content)
diff --git a/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_repo.py b/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_repo.py
index 9b109aa..be8170a 100644
--- a/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_repo.py
+++ b/repositories/conda-pkm-repo/src/conda_pkm_repo/conda_repo.py
@@ -25,12 +25,12 @@ class CondaRepository(AbstractRepository):
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         if urlv := dependency.required_url():
             assert urlv.protocol == "conda"
-            url = urlv.url.lower()
+            url = _normalize_channel(urlv.url)
             if url.startswith(self.channel + "/"):
-                subdir_name, artifact = urlv.url[len(self.channel + "/"):].split("/")
+                subdir_name, artifact = url[len(self.channel + "/"):].split("/")
                 subdir = self.subdir_by_name(subdir_name)
                 package = subdir.single_artifact_package(artifact)
-                return [package] if package else []
+                return [package] if package and package.name_key == dependency.package_name_key else []
             return []
 
         subdir_name = subdir_of(env.operating_platform)
@@ -52,4 +52,7 @@ class CondaRepository(AbstractRepository):
 
 
 def _normalize_channel(channel: str) -> str:
-    return channel.rstrip('/').lower()
+    channel = channel.rstrip('/')
+    scheme, sep, rest = channel.partition("://")
+    host, slash, path = rest.partition("/")  # the path is case-sensitive
+    return f"{scheme.lower()}{sep}{host.lower()}{slash}{path}" if sep else channel
diff --git a/repositories/conda-pkm-repo/src/conda_pkm_repo/pkm_extension.py b/repositories/conda-pkm-repo/src/conda_pkm_repo/pkm_extension.py
index 01d7ce1..5abfb88 100644
--- a/repositories/conda-pkm-repo/src/conda_pkm_repo/pkm_extension.py
+++ b/repositories/conda-pkm-repo/src/conda_pkm_repo/pkm_extension.py
@@ -22,7 +22,7 @@ class CondaRepositoryBuilder(RepositoryBuilder):
         super().__init__("conda")
 
     def build(self, name: str, channel: str) -> Repository:
-        if not (result := _prebuilt_repositories.get(channel)):
-            _prebuilt_repositories[channel] = result = CondaRepository(name, channel)
+        if not (result := _prebuilt_repositories.get((name, channel))):
+            _prebuilt_repositories[name, channel] = result = CondaRepository(name, channel)
 
         return result
-- 
2.43.0


From 3ffc6032dc57ea9ebd8ebac5d36ef1e1fed73633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:19 +0000
Subject: [PATCH 085/122] fix: run project tasks with exactly their arguments,
 and the tasks attached to commands

---
 .../src/pkm_cli/api/tasks/tasks_executor.py   |  78 +++++++--
 pkm-cli/src/pkm_cli/api/tasks/tasks_runner.py | 159 ++----------------
 pkm-cli/src/pkm_cli/main.py                   |  24 ++-
 3 files changed, 94 insertions(+), 167 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/api/tasks/tasks_executor.py b/pkm-cli/src/pkm_cli/api/tasks/tasks_executor.py
index a751ccc..b5cd351 100644
--- a/pkm-cli/src/pkm_cli/api/tasks/tasks_executor.py
+++ b/pkm-cli/src/pkm_cli/api/tasks/tasks_executor.py
@@ -1,9 +1,11 @@
 import ast
 import importlib.resources as ir
 import importlib.util as iu
+import json
 import os
 import subprocess
 import traceback
+from importlib.machinery import ModuleSpec
 from pathlib import Path
 from types import ModuleType
 from typing import Optional, List
@@ -27,12 +29,12 @@ class TasksExecutor:
     @staticmethod
     def execute_before(p: Project, cmd: Command, cmd_args: List[str]):
         if _attachment_path(p, cmd, "before").exists():
-            _execute(p, ["-a", "before", *cmd_args])
+            _execute(p, cmd_args, "before")
 
     @staticmethod
     def execute_after(project: Project, cmd: Command, cmd_args: List[str]):
         if _attachment_path(project, cmd, "after").exists():
-            _execute(project, ["-a", "after", *cmd_args])
+            _execute(project, cmd_args, "after")
 
 
 def _execute(p: Project, args: List[str], attachment: Optional[str] = None):
@@ -49,7 +51,8 @@ def _execute(p: Project, args: List[str], attachment: Optional[str] = None):
         else:
             env["PYTHONPATH"] = str(tasks_)
 
-    cmd = ["run-attached", attachment] if attachment else ["run"]
+    # the arguments of an attached command are given as a single value as they may start with options
+    cmd, args = (["run-attached", attachment], [json.dumps(args)]) if attachment else (["run"], args)
     with p.attached_environment.activate(env):
         subprocess.run([
             str(p.attached_environment.interpreter_path), "-m", __name__, "pkm", "-p", str(p.path), *cmd, *args
@@ -57,7 +60,11 @@ def _execute(p: Project, args: List[str], attachment: Optional[str] = None):
 
 
 def _attachment_path(p: Project, cmd: Command, attachment: str) -> Path:
-    return p.path.joinpath("tasks", *cmd.path[1:], f"{attachment}.py")
+    return p.path.joinpath("tasks", *_attachment_task(cmd, attachment).split(".")).with_suffix(".py")
+
+
+def _attachment_task(cmd: Command, attachment: str) -> str:
+    return '.'.join(["commands", *(it.replace("-", "_") for it in cmd.path[1:]), attachment])
 
 
 if __name__ == "__main__":
@@ -66,12 +73,20 @@ if __name__ == "__main__":
     from pkm_cli.main import parse
 
 
-    def _load_task(name: str) -> ModuleType:
-        name = name.replace('-', '_')
+    def _find_task(name: str) -> Optional[ModuleSpec]:
+        task_path = project.path.joinpath("tasks", *name.split("."))
+        if (script := task_path.with_name(f"{task_path.name}.py")).is_file():
+            return iu.spec_from_file_location(name, script)
+
         try:
-            task_spec = iu.find_spec(name) or iu.find_spec(f"pkm_tasks.{name}")
+            return iu.find_spec(f"pkm_tasks.{name}")
         except ModuleNotFoundError:
-            task_spec = None
+            return None
+
+
+    def _load_task(name: str) -> ModuleType:
+        name = name.replace('-', '_')
+        task_spec = _find_task(name)
 
         if not task_spec:
             raise FileNotFoundError(f"no such task: {name}")
@@ -81,6 +96,12 @@ if __name__ == "__main__":
         # extend builtins
         task.run_task = _run_task
         task.project = project
+        task.project_info = {
+            'name': project.name,
+            'version': str(project.version),
+            'path': str(project.path.resolve()),
+            'group_path': str(project.group.path.resolve()) if project.group else None
+        }
 
         task_spec.loader.exec_module(task)
         if not callable(getattr(task, 'run', None)):
@@ -138,12 +159,18 @@ if __name__ == "__main__":
 
     @command("pkm", option("-p,--project", reader=Path))
     def pkm_(cmd: Command):
+        _load_project(cmd)
+
+
+    def _load_project(cmd: Command):
         global project
-        project = Project.load(cmd.project)
+        if not project:
+            project = Project.load(cmd.project)
 
 
     @dynamic_commands("pkm run")
-    def pkm_run(_: Command, next_args: ArgumentsBuffer) -> List[CommandDef]:
+    def pkm_run(cmd: Command, next_args: ArgumentsBuffer) -> List[CommandDef]:
+        _load_project(cmd)  # the tasks are loaded before any command is executed
         if next_ := next_args.peek_or_none():
             task = _load_task(next_.lstrip('@')).run
             return [command_definition_from_method(task, next_)]
@@ -154,19 +181,38 @@ if __name__ == "__main__":
     @command(
         "pkm run-attached",
         positional("attachment", reader=ChoicesReader(["before", "after"])),
-        positional("command_args", n_values="*"))
+        positional("command_args"))
     def pkm_run_attached(cmd: Command):
-        attached_command = parse(cmd.command_args)
-        _run_task('.'.join(cmd.path[1:]) + "." + cmd.attachment, attached_command)
+        attached_command = parse(["pkm", *json.loads(cmd.command_args)])
+        _run_task(_attachment_task(attached_command, cmd.attachment), _AttachedCommand(attached_command))
+
+
+    class _AttachedCommand(dict):
+        """
+        the arguments of the command that a task is attached to, also accessible as attributes
+        """
+
+        def __init__(self, cmd: Command):
+            super().__init__()
+            for it in (*cmd.parents(), cmd):
+                self.update(it.arguments)
+
+        def __getattr__(self, item):
+            try:
+                return self[item]
+            except KeyError:
+                raise AttributeError(f"no such argument: {item}") from None
 
 
     def main(args: List[str]):
 
         cmd = DynamicCommandLine.create(command_definitions_from([pkm_, pkm_run, pkm_run_attached]), args).parse()
-        if cmd.parse_error or cmd.help:
-            if cmd.parse_error:
-                traceback.print_exception(cmd.parse_error)
+        if cmd.arguments.get("help"):
+            cmd.print_help()
+        elif cmd.parse_error:
+            traceback.print_exception(type(cmd.parse_error), cmd.parse_error, cmd.parse_error.__traceback__)
             cmd.print_help()
+            sys.exit(1)
         else:
             cmd.execute()
 
diff --git a/pkm-cli/src/pkm_cli/api/tasks/tasks_runner.py b/pkm-cli/src/pkm_cli/api/tasks/tasks_runner.py
index 1345c27..189380f 100644
--- a/pkm-cli/src/pkm_cli/api/tasks/tasks_runner.py
+++ b/pkm-cli/src/pkm_cli/api/tasks/tasks_runner.py
@@ -1,61 +1,9 @@
-import inspect
-import json
-import os
-import subprocess
 from contextlib import contextmanager
-from pathlib import Path
-from typing import List, Optional, Union, Any, Iterable
-
-from jinja2.utils import Namespace
+from typing import List
 
 from pkm.api.projects.project import Project
-from pkm.utils.files import temp_dir
 from pkm_cli.api.dynamic_cli.command_parser import Command
-
-_EXECUTE_TASK = """
-import importlib.util as iu
-import json
-from pathlib import Path
-from mc import MethodCliArgs # noqa
-
-insn = json.loads(Path('insn.json').read_text())
-
-def load_task(name):
-    name = name.replace('-','_')
-    try:
-        task_spec = iu.find_spec(name) or iu.find_spec(f"pkm_tasks.{name}")
-    except ModuleNotFoundError:
-        task_spec = None
-        
-    if not task_spec:
-        raise FileNotFoundError(f"no such task: {name}")
-    
-    task = iu.module_from_spec(task_spec)
-    
-    # extend builtins
-    task.run_task = run_task
-    task.project_info = insn['project_info']
-        
-    task_spec.loader.exec_module(task)
-    if not callable(getattr(task, 'run', None)):
-        raise ValueError(f"not a task: {name} (missing run function)")
-        
-    return task
-
-def run_task(name, *args, **kwargs):
-    task = load_task(name)
-    task.run(*args, **kwargs)
-
-main_task = load_task(insn['task'])
-run_function = main_task.run
-
-if insn['mode'] == 'describe':
-    print(run_function.__doc__ or "No Description Provided")
-elif insn['mode'] == 'run-attached':
-    run_function(insn['args'])
-else:
-    MethodCliArgs.parse(insn['args']).execute(run_function)
-"""
+from pkm_cli.api.tasks.tasks_executor import TasksExecutor
 
 
 class TasksRunner:
@@ -63,98 +11,17 @@ class TasksRunner:
         self._project = project
 
     def run(self, task_name: str, args: List[str]) -> int:
-        return _Task(task_name, self._project).execute(args)
+        TasksExecutor.execute(self._project, task_name, args)
+        return 0
 
     @contextmanager
-    def run_attached(self, command: Command):
-        command_args_dict = command.arguments
-
-        if before := _get_attached_name('before', command.path, self._project):
-            _Task(before, self._project).execute_attached(command_args_dict)
+    def run_attached(self, command: Command, command_args: List[str]):
+        """
+        context manager that executes the tasks that are attached to the given command: the `before` task when it is
+        entered and the `after` task when it is left normally
+        :param command: the command that is executed inside this context
+        :param command_args: the commandline arguments of the command
+        """
+        TasksExecutor.execute_before(self._project, command, command_args)
         yield
-        if after := _get_attached_name('after', command.path, self._project):
-            _Task(after, self._project).execute_attached(command_args_dict)
-
-    def describe(self, task_name: str) -> str:
-        return _Task(task_name, self._project).describe()
-
-
-class _Task:
-    def __init__(self, task: str, project: Project):
-        self.task = task
-        self.project = project
-
-    def execute(self, args: List[str]) -> int:
-        return self._execute('run', args)
-
-    def execute_attached(self, args: dict) -> int:
-        return self._execute('run-attached', args)
-
-    def describe(self) -> str:
-        return self._execute('describe', [])
-
-    def _execute(self, mode: str, args: Any) -> Union[int, str]:
-        import importlib.util as iu
-
-        new_paths = os.pathsep.join({
-            str(Path(sl).parent.absolute()) for m in ["pkm", "pkm_cli"]
-            for sl in iu.find_spec(m).submodule_search_locations})
-
-        if pythonpath := os.environ.get("PYTHONPATH", None):
-            pythonpath = f"{pythonpath}:{new_paths}"
-        else:
-            pythonpath = new_paths
-
-        env = {**os.environ, "PYTHONPATH": pythonpath}
-        with self.project.attached_environment.activate(env):
-            subprocess.run([
-                str(self.project.attached_environment.interpreter_path), "-m", "pkm_cli.tasks.execute_task_cli"
-                "-p", str(self.project.path),
-            ], env=env).check_returncode()
-
-        project = self.project
-        group = project.group
-        insn = {
-            'task': self.task,
-            'args': args,
-            'mode': mode,
-            'project_info': {
-                'name': project.name,
-                'version': str(project.version),
-                'path': str(project.path.resolve()),
-                'group_path': str(group.path.resolve()) if group else None
-            }
-        }
-
-        with temp_dir() as tdir:
-            import pkm_cli.utils.method_clis as mc
-            (tdir / "mc.py").write_text(inspect.getsource(mc))
-
-            execute_py = tdir / "execute.py"
-            (tdir / "insn.json").write_text(json.dumps(insn))
-            execute_py.write_text(_EXECUTE_TASK)
-            with self.project.attached_environment.activate():
-                pythonpath = str((project.path / 'tasks').resolve())
-                if old_pythonpath := os.environ.get("PYTHONPATH", ""):
-                    pythonpath = pythonpath + os.pathsep + old_pythonpath
-
-                os.environ["PYTHONPATH"] = pythonpath
-                try:
-                    capture = mode == 'describe'
-                    result = subprocess.run([
-                        str(self.project.attached_environment.interpreter_path), "execute.py"], cwd=tdir,
-                        capture_output=capture, text=capture)
-
-                    if capture:
-                        return result.stdout.strip()
-                    return result.returncode
-                finally:
-                    os.environ["PYTHONPATH"] = old_pythonpath
-
-
-def _get_attached_name(phase: str, command: Iterable[str], project: Project) -> Optional[str]:
-    cmd = [it.replace("-", "_") for it in command][1:]
-    task_path = project.path.joinpath("tasks", "commands", *cmd, phase + ".py")
-    if task_path.exists():
-        return f"commands.{'.'.join(cmd)}.{phase}"
-    return None
+        TasksExecutor.execute_after(self._project, command, command_args)
diff --git a/pkm-cli/src/pkm_cli/main.py b/pkm-cli/src/pkm_cli/main.py
index 1a8b3be..5312797 100644
--- a/pkm-cli/src/pkm_cli/main.py
+++ b/pkm-cli/src/pkm_cli/main.py
@@ -45,6 +45,15 @@ class RepositoryInstanceFieldsProvider(ArgumentFieldsProvider):
         raise UnsupportedOperationException(f"unknown repository type: {value}")
 
 
+class RemainingArgumentsReader(ArgumentReader):
+
+    def read(self, cmd: Command, argument: ArgumentDef, buf: ArgumentsBuffer) -> List[str]:
+        result = []
+        while (arg := buf.next_or_none()) is not None:
+            result.append(arg)
+        return result
+
+
 class AvailableRepositorySelectionReader(ArgumentReader):
 
     def read(self, cmd: Command, argument: ArgumentDef, buf: ArgumentsBuffer) -> Any:
@@ -101,9 +110,11 @@ def pkm_run(cmd: Command, next_args: ArgumentsBuffer) -> List[CommandDef]:
     if not (project := context.lookup_project()):
         raise UnsupportedOperationException("tasks can only be executed in project context")
 
-    @command("", positional("task"), positional("args", n_values="*", default=[]))
+    # all the arguments (including options, e.g., --help) belong to the task
+    @command("", positional("task-and-args", reader=RemainingArgumentsReader()))
     def task_exec(cmd: Command):
-        TasksExecutor.execute(project, cmd.task, cmd.args)
+        task, *args = cmd.task_and_args
+        TasksExecutor.execute(project, task[1:], args)
 
     return command_definitions_from([task_exec])
 
@@ -192,7 +203,7 @@ def pkm_install(cmd: Command):
 
             if dependencies:
                 force(target)
-                updates = [d.package_name for d in dependencies] if args.update else None
+                updates = [d.package_name for d in dependencies] if cmd.update else None
                 store_modes = {d.package_name: store_mode for d in dependencies}
                 target.install(dependencies, updates=updates, store_mode=store_modes)
 
@@ -219,10 +230,13 @@ def main(args: Optional[List[str]] = None):
         def with_tasks(p: Project):
             global tasks
             tasks = TasksRunner(p)
-            with tasks.run_attached(cmd):
+            with tasks.run_attached(cmd, args[1:]):
                 cmd.execute()
 
-        context.run(on_project=with_tasks, on_missing=cmd.execute, silent=True)
+        if cmd.without_tasks:
+            cmd.execute()
+        else:
+            context.run(on_project=with_tasks, on_missing=cmd.execute, silent=True)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 49ae5e47397fa5e3de5755a0ede95fe6cb1152a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:08 +0000
Subject: [PATCH 086/122] fix: installing and removing packages that share a
 directory at the same time does not fail

---
 pkm/src/pkm/utils/files.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index 29dc726..3295201 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -176,8 +176,8 @@ class CopyTransaction:
             except FileExistsError:  # created by another transaction in the meantime
                 if not target.is_dir():
                     raise
-            except FileNotFoundError:  # the parent was removed by another transaction in the meantime
-                if os.path.lexists(target.parent):
+            except FileNotFoundError:  # the parent was removed by another transaction, it may be created again already
+                if os.path.lexists(target.parent) and not target.parent.is_dir():
                     raise
             else:
                 self.touch(target)
@@ -201,10 +201,11 @@ class CopyTransaction:
             try:
                 write()
                 return
-            except FileNotFoundError:
-                if os.path.lexists(target.parent):
+            except FileNotFoundError as e:
+                if str(e.filename) != str(target):
                     raise
-                self.mkdir(target.parent)  # it was removed by another transaction in the meantime, when it was empty
+                # the parent was removed by another transaction, when it was empty, it may be created again already
+                self.mkdir(target.parent)
 
     def overwrite(self, target: Path) -> Path:
         """
-- 
2.43.0


From 674dd167316144f4ba18bc0f9b2122c4d99004af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:11 +0000
Subject: [PATCH 087/122] fix: empty directories of a wheel are not installed
 at any depth

---
 pkm/src/pkm/api/distributions/wheel_distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index 86fc437..6164e34 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -226,9 +226,9 @@ def _verify_dist_info(dist_info: DistInfo, package: PackageDescriptor):
 
 
 def _remove_empty_directories(content: Path):
-    to_del = [d for d in content.glob("**/") if is_empty_directory(d)]
-    for d in to_del:
-        d.rmdir()
+    for d in sorted(content.glob("**/"), reverse=True):  # children before their parents
+        if d != content and is_empty_directory(d):
+            d.rmdir()
 
 
 def _verify_records(
-- 
2.43.0


From 435f37b479404d7ed9f4e78e59918a0ab6a034bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:36 +0000
Subject: [PATCH 088/122] fix: install members of a project group from a git
 repository

---
 pkm/src/pkm/repositories/git_repository.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/repositories/git_repository.py b/pkm/src/pkm/repositories/git_repository.py
index 18e32f3..9769ff8 100644
--- a/pkm/src/pkm/repositories/git_repository.py
+++ b/pkm/src/pkm/repositories/git_repository.py
@@ -1,6 +1,6 @@
 import shutil
 from pathlib import Path
-from typing import List, Optional, cast, TYPE_CHECKING, Iterable
+from typing import List, Optional, TYPE_CHECKING, Iterable
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.packages.package_installation_info import StoreMode
@@ -9,7 +9,6 @@ from pkm.api.packages.package_installation import PackageInstallationTarget
 from pkm.api.projects.project import Project
 from pkm.api.projects.project_group import ProjectGroup
 from pkm.api.repositories.repository import AbstractRepository
-from pkm.api.versions.version import NamedVersion
 from pkm.utils.commons import NoSuchElementException
 from pkm.utils.http.http_client import Url
 from pkm.utils.types import Serializable
@@ -102,8 +101,7 @@ class GitRepository(AbstractRepository):
 
         if ProjectGroup.is_valid(target_dir):
             project = single_or_raise(p for p in ProjectGroup.load(target_dir).project_children_recursive
-                                      if p.name == dependency.package_name)
-            project.bump_version('name', cast(NamedVersion, desc.version).name, save=False)
+                                      if p.name_key == dependency.package_name_key)
         else:
             project = Project.load(target_dir, package=desc)
 
-- 
2.43.0


From 4e1cac83ffc57dd378ecb843196d7a0e9359cfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:29 +0000
Subject: [PATCH 089/122] fix: git requirements with user information, ssh or
 file addresses, or several revisions of one repository

---
 pkm/src/pkm/repositories/git_repository.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pkm/src/pkm/repositories/git_repository.py b/pkm/src/pkm/repositories/git_repository.py
index 9769ff8..6619661 100644
--- a/pkm/src/pkm/repositories/git_repository.py
+++ b/pkm/src/pkm/repositories/git_repository.py
@@ -1,3 +1,4 @@
+import hashlib
 import shutil
 from pathlib import Path
 from typing import List, Optional, TYPE_CHECKING, Iterable
@@ -79,23 +80,19 @@ class GitRepository(AbstractRepository):
         if not (version := dependency.required_url()) or version.protocol != 'git':
             return []
 
-        parts = version.url.split("@")
-        url = Url.parse(parts[0])
-        if (sz := len(parts)) == 1:
-            branch = None
-        elif sz == 2:
-            branch = parts[1]
-        else:
-            raise ValueError(f"malformed git url: {url}")
+        # the revision follows the path, an "@" before it belongs to the user information
+        url, branch = version.url, None
+        if "@" in Url.parse(url).path:
+            url, _, branch = url.rpartition("@")
 
-        target_dir = self._workspace / dependency.package_name / url.host / url.path.lstrip('/')
-        if branch:
-            target_dir /= branch
+        # every address has its own directory, outside those of the others
+        address_hash = hashlib.md5(version.url.encode('utf-8')).hexdigest()
+        target_dir = self._workspace / dependency.package_name_key / address_hash
 
         if target_dir.exists():
             self._git_client.update(dependency.package_name, target_dir)
         else:
-            self._git_client.clone(dependency.package_name, str(url), branch, target_dir)
+            self._git_client.clone(dependency.package_name, url, branch, target_dir)
 
         desc = PackageDescriptor(dependency.package_name, version)
 
-- 
2.43.0


From af91936c42f93fc86e8a2efb8d74a1ad4c357b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:33 +0000
Subject: [PATCH 090/122] fix: check out git revisions that are named as a file
 of the repository

---
 pkm/src/pkm/repositories/git_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/repositories/git_repository.py b/pkm/src/pkm/repositories/git_repository.py
index 6619661..f8bc965 100644
--- a/pkm/src/pkm/repositories/git_repository.py
+++ b/pkm/src/pkm/repositories/git_repository.py
@@ -55,7 +55,7 @@ class _Git:
 
             if branch_or_commit:
                 monitored_run(
-                    f'fetch {package_name}', [self._git_cmd, 'checkout', branch_or_commit],
+                    f'fetch {package_name}', [self._git_cmd, 'checkout', branch_or_commit, '--'],
                     cwd=str(target_dir)).check_returncode()
         except Exception:
             shutil.rmtree(target_dir, ignore_errors=True)
-- 
2.43.0


From 93f8acd032055c711ab6e56a5964a4636adeb9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:16 +0000
Subject: [PATCH 091/122] fix: git fetches that are killed or run at the same
 time do not spoil later ones

---
 pkm/src/pkm/repositories/git_repository.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/repositories/git_repository.py b/pkm/src/pkm/repositories/git_repository.py
index f8bc965..b2c5969 100644
--- a/pkm/src/pkm/repositories/git_repository.py
+++ b/pkm/src/pkm/repositories/git_repository.py
@@ -1,6 +1,7 @@
 import hashlib
 import shutil
 from pathlib import Path
+from tempfile import TemporaryDirectory
 from typing import List, Optional, TYPE_CHECKING, Iterable
 
 from pkm.api.dependencies.dependency import Dependency
@@ -49,17 +50,24 @@ class _Git:
     def clone(self, package_name: str, repository_url: str, branch_or_commit: Optional[str], target_dir: Path):
         # TODO: the monitoring should probably run as part of a larger "match" monitored operation
 
-        try:
+        target_dir.parent.mkdir(parents=True, exist_ok=True)
+
+        # the clone is put in place only once it is complete
+        with TemporaryDirectory(dir=target_dir.parent) as tdir:
+            clone_dir = Path(tdir) / "clone"
             monitored_run(
-                f'fetch {package_name}', [self._git_cmd, 'clone', repository_url, str(target_dir)]).check_returncode()
+                f'fetch {package_name}', [self._git_cmd, 'clone', repository_url, str(clone_dir)]).check_returncode()
 
             if branch_or_commit:
                 monitored_run(
                     f'fetch {package_name}', [self._git_cmd, 'checkout', branch_or_commit, '--'],
-                    cwd=str(target_dir)).check_returncode()
-        except Exception:
-            shutil.rmtree(target_dir, ignore_errors=True)
-            raise
+                    cwd=str(clone_dir)).check_returncode()
+
+            try:
+                clone_dir.replace(target_dir)
+            except OSError:
+                if not target_dir.exists():  # otherwise, another process fetched it in the meantime
+                    raise
 
 
 class GitRepository(AbstractRepository):
-- 
2.43.0


From 83cee051a5e38501ce2a124bbf4b93a5920e197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:20 +0000
Subject: [PATCH 092/122] fix: install wheels that are requested by their url

---
 pkm/src/pkm/api/distributions/wheel_distribution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index 6164e34..a56f247 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -14,7 +14,7 @@ from pkm.api.distributions.distribution import Distribution
 from pkm.api.packages.package import PackageDescriptor
 from pkm.api.packages.package_installation_info import PackageInstallationInfo
 from pkm.api.packages.package_metadata import PackageMetadata
-from pkm.api.versions.version import StandardVersion
+from pkm.api.versions.version import StandardVersion, UrlVersion
 from pkm.api.versions.version_specifiers import StandardVersionRange
 from pkm.launchers.executables import Executables
 from pkm.utils.archives import extract_archive
@@ -218,10 +218,13 @@ def _verify_dist_info(dist_info: DistInfo, package: PackageDescriptor):
     if not metadata.package_name or not metadata.package_version:
         raise InstallationException(f"malformed wheel for {package}: no name or version in its METADATA")
 
+    # the version of a package that was requested by its url is only known from its wheel
+    version = metadata.package_version if isinstance(package.version, UrlVersion) else package.version
+
     for described in (
             PackageDescriptor(metadata.package_name, metadata.package_version),
             PackageDescriptor(dist_info.package_name_by_dirname, dist_info.package_version_by_dirname)):
-        if described.name_key != package.name_key or described.version != package.version:
+        if described.name_key != package.name_key or described.version != version:
             raise InstallationException(f"expecting a wheel for {package}, but the given wheel is for {described}")
 
 
-- 
2.43.0


From 5aa7f82f9d7c23a8fe447b23ae080b52e9567c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:24 +0000
Subject: [PATCH 093/122] fix: verify the hash in the url of a required archive

---
 pkm/src/pkm/repositories/url_repository.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/repositories/url_repository.py b/pkm/src/pkm/repositories/url_repository.py
index 528fc69..18c7b52 100644
--- a/pkm/src/pkm/repositories/url_repository.py
+++ b/pkm/src/pkm/repositories/url_repository.py
@@ -1,7 +1,9 @@
+import hashlib
 from pathlib import Path
 from typing import List, Iterable
 
 from pkm.api.dependencies.dependency import Dependency
+from pkm.api.distributions.wheel_distribution import InstallationException
 from pkm.api.environments.environment import Environment
 from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.packages.standard_package import PackageArtifact, AbstractPackage
@@ -41,4 +43,13 @@ class UrlPackage(AbstractPackage, Serializable):
         self.__init__(*state)
 
     def _retrieve_artifact(self, artifact: PackageArtifact) -> Path:
-        return pkm.httpclient.fetch_resource(str(self._url)).data
+        resource = pkm.httpclient.fetch_resource(str(self._url))
+
+        for part in Url.parse(self._url).fragment.split("&"):
+            hash_function, _, hash_value = part.partition("=")
+            if hash_function in hashlib.algorithms_guaranteed \
+                    and not resource.is_hash_valid(hash_function, hash_value):
+                resource.delete()
+                raise InstallationException(f"Invalid hash for a resource received from {self._url}")
+
+        return resource.data
-- 
2.43.0


From cc0c7b07a99e27f8605b8278207bbe4a6e61a634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:27 +0000
Subject: [PATCH 094/122] fix: do not keep downloads that have a wrong hash

---
 pkm/src/pkm/repositories/pypi_repository.py   | 1 +
 pkm/src/pkm/repositories/simple_repository.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index 274a763..7f8607c 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -110,6 +110,7 @@ class PypiPackage(AbstractPackage, Serializable):
                 hash_function = first_or_none(digests.keys())
 
             if hash_function is not None and not resource.is_hash_valid(hash_function, digests[hash_function]):
+                resource.delete()
                 raise InstallationException(f"invalid hash for resource downloaded from {url}")
 
         return resource.data
diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index 6b1c226..00a6ed5 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -131,6 +131,7 @@ class _SimplePackage(AbstractPackage, Serializable):
         if fragment:
             hash_function, _, hash_value = fragment.partition("=")
             if hash_function and hash_value and not resource.is_hash_valid(hash_function, hash_value):
+                resource.delete()
                 raise InstallationException(f"Invalid hash for a resource received from {url}")
 
         return resource.data
-- 
2.43.0


From 6e61c6a12161267b67233a35fef0f3ee5f4f6753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:30 +0000
Subject: [PATCH 095/122] fix: download resources whose cached content was lost

---
 pkm/src/pkm/utils/http/http_client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 44865fc..54e3e88 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -434,7 +434,8 @@ class HttpClient:
 
                             # noinspection PyShadowingNames
                             try:
-                                cache.add_headers(fetch_info, headers)
+                                if cache_files.exists():
+                                    cache.add_headers(fetch_info, headers)
                                 with self._request("GET", parsed_url, headers=headers) as response:
                                     clength = int(response.headers.get('content-length', '-1'))
                                     mop.notify(FetchResourceDownloadStartEvent(clength, cache_files.data))
-- 
2.43.0


From fb3740c9c1af3e04e09103e807116d09c1dd8745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:12 +0000
Subject: [PATCH 096/122] fix: decode the file name in the url of a required
 archive

---
 pkm/src/pkm/repositories/url_repository.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/repositories/url_repository.py b/pkm/src/pkm/repositories/url_repository.py
index 18c7b52..60eb719 100644
--- a/pkm/src/pkm/repositories/url_repository.py
+++ b/pkm/src/pkm/repositories/url_repository.py
@@ -1,6 +1,7 @@
 import hashlib
 from pathlib import Path
 from typing import List, Iterable
+from urllib.parse import unquote
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.wheel_distribution import InstallationException
@@ -32,7 +33,7 @@ class UrlPackage(AbstractPackage, Serializable):
 
     def __init__(self, desc: PackageDescriptor, url: str):
         purl = Url.parse(url)
-        file_name = Path(purl.path).name
+        file_name = Path(unquote(purl.path)).name
         super().__init__(desc, [PackageArtifact(file_name)])
         self._url = url
 
-- 
2.43.0


From c6679d813929c278667af78c31ee3886da070695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:53 +0000
Subject: [PATCH 097/122] fix: install the archive of a new request although
 another one has the same version

---
 pkm/src/pkm/api/packages/package_installation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 889b8b7..46a518a 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -278,10 +278,10 @@ class InstallationPlan:
                     if store_mode_matching and user_request_matching:
                         operations[package_to_install] = PackageOperation.SKIP
                         continue
-                    if store_mode_matching and not user_request_matching:
+                    if store_mode_matching and not user_request_matching and not new_user_request.required_url():
                         # note that i am attaching the operation to the preinstalled package instead of the real package
                         # this is for performance reasons - no need to really reinstall the package, only change the
-                        # user request flag
+                        # user request flag (unless the new request is on a specific archive or project, it may differ)
                         operations[preinstalled_package] = PackageOperation.UPDATE
                         continue
 
-- 
2.43.0


From 4ac9670d3718166919f5e377534d6798572e5491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:57 +0000
Subject: [PATCH 098/122] fix: refuse an archive of another package as the one
 that was requested

---
 pkm/src/pkm/repositories/file_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/repositories/file_repository.py b/pkm/src/pkm/repositories/file_repository.py
index cc70290..29e238e 100644
--- a/pkm/src/pkm/repositories/file_repository.py
+++ b/pkm/src/pkm/repositories/file_repository.py
@@ -19,7 +19,7 @@ class FileRepository(AbstractRepository):
             return []
 
         package = load_package_from_filesystem(Path(without_prefix(vurl.url, "file://")))
-        return [package] if package else []
+        return [package] if package and package.name_key == dependency.package_name_key else []
 
     def accepted_url_protocols(self) -> Iterable[str]:
         return 'file',
-- 
2.43.0


From 5772b29c3d86cb02165aa3880f72c174e817f0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:56 +0000
Subject: [PATCH 099/122] fix: pkm install without packages installs the
 project

---
 pkm-cli/src/pkm_cli/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm-cli/src/pkm_cli/main.py b/pkm-cli/src/pkm_cli/main.py
index 5312797..64e0ef2 100644
--- a/pkm-cli/src/pkm_cli/main.py
+++ b/pkm-cli/src/pkm_cli/main.py
@@ -149,7 +149,7 @@ def pkm_new(_: Command, next_args: ArgumentsBuffer) -> List[CommandDef]:
            help="bind the given packages to a specific repository by name"),
     option('-R, --unnamed-repo', fields_provider=RepositoryInstanceFieldsProvider(), default=None,
            help="bind the given packages to a new unnamed repositry given its configuration"),
-    positional('packages', n_values="*", help="the packages to install (support pep508 dependency syntax)"))
+    positional('packages', n_values="*", default=(), help="the packages to install (support pep508 dependency syntax)"))
 def pkm_install(cmd: Command):
     """
     install packages under the current context
-- 
2.43.0


From b5b8831fa6dfe54ab6eedf8da96d7fc927b5f844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:59 +0000
Subject: [PATCH 100/122] fix: pkm install can bind packages to an unnamed
 repository

---
 pkm-cli/src/pkm_cli/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/main.py b/pkm-cli/src/pkm_cli/main.py
index 64e0ef2..1556311 100644
--- a/pkm-cli/src/pkm_cli/main.py
+++ b/pkm-cli/src/pkm_cli/main.py
@@ -164,8 +164,9 @@ def pkm_install(cmd: Command):
                    for d in dependencies):
                 contex.repository_management.register_bindings([d.package_name for d in dependencies], repo)
                 cmd.force = True
-        elif repo_type := cmd.unnamed_repo:
-            instance_config = RepositoryInstanceConfig(repo_type, True, getattr(args, 'unnamed_repo_extras', {}))
+        elif unnamed_repo := cmd.unnamed_repo:
+            repo_args = {k: v for k, v in unnamed_repo.items() if k != 'value' and v is not None}
+            instance_config = RepositoryInstanceConfig(unnamed_repo['value'], True, repo_args)
             contex.repository_management.register_bindings([d.package_name for d in dependencies], instance_config)
             cmd.force = True
 
-- 
2.43.0


From 080346084f1cf518bcc12ebb985bf2ae08229009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:03 +0000
Subject: [PATCH 101/122] fix: use the site that was asked for with the global
 context

---
 pkm-cli/src/pkm_cli/utils/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm-cli/src/pkm_cli/utils/context.py b/pkm-cli/src/pkm_cli/utils/context.py
index a40a87e..b7da0d6 100644
--- a/pkm-cli/src/pkm_cli/utils/context.py
+++ b/pkm-cli/src/pkm_cli/utils/context.py
@@ -152,15 +152,17 @@ class Context:
 
     @classmethod
     def of(cls, command: Command) -> Context:
+        site = getattr(command, 'site', None)
         command = command.parent_by_path("pkm")
         if prec := _CONTEXT_SYM.getattr(command, None):
+            prec._site = prec._site or site  # the context may already be needed while the arguments are being parsed
             return prec
 
         cwd = Path.cwd()
         if context := command.context:
             result = cls(Path(context), False, False, None)
         elif command.global_context:
-            result = cls(cwd, False, True, getattr(command, 'site', None))
+            result = cls(cwd, False, True, site)
         else:
             result = cls(cwd, True, False, None)
 
-- 
2.43.0


From 207e5e29a97afcfa9f3e4694d5d7f25e86a9c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:06 +0000
Subject: [PATCH 102/122] fix: the packages of an environment that was used
 before an installation are up to date after it

---
 pkm/src/pkm/api/environments/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environment.py b/pkm/src/pkm/api/environments/environment.py
index 71fa0da..c84813d 100644
--- a/pkm/src/pkm/api/environments/environment.py
+++ b/pkm/src/pkm/api/environments/environment.py
@@ -161,7 +161,7 @@ class Environment(HasAttachedRepository, Serializable):
         """
         return self._introspection.compute_markers()
 
-    @cached_property
+    @property
     def site_packages(self) -> SitePackages:
         return self.installation_target.site_packages
 
-- 
2.43.0


From de3e7c72d23d0ceabb31c241eb48ac57b56eac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:09 +0000
Subject: [PATCH 103/122] fix: keep the request on a project that got another
 version

---
 pkm/src/pkm/api/projects/project.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 565da4a..5b61040 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -136,6 +136,11 @@ class Project(Package, HasAttachedRepository, Serializable):
         if self.is_containerized_application():
             target.package_containers.install(self, store_mode)
         else:
+            if not user_request and (preinstalled := target.site_packages.installed_package(self.name)):
+                user_request = preinstalled.user_request
+                if user_request and not user_request.version_spec.allows_version(self.version):
+                    # the version of the project was changed since it was requested
+                    user_request = self.descriptor.to_dependency().with_extras(user_request.extras)
             super(Project, self).update_at(target, user_request, store_mode)
 
     @cached_property
-- 
2.43.0


From 36c68a6203605415f6c73229aee5bebab1b5be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:12 +0000
Subject: [PATCH 104/122] fix: installing a project refreshes its installed
 metadata

---
 pkm/src/pkm/api/projects/project.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 5b61040..bad0187 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -206,10 +206,17 @@ class Project(Package, HasAttachedRepository, Serializable):
         if packages_to_update:
             updates.extend(packages_to_update)
 
-        self.attached_environment.install(
+        env = self.attached_environment
+        preinstalled = env.site_packages.installed_package(self.name)
+
+        env.install(
             [dependency], repository=self.attached_repository,
             updates=updates, store_modes=packages_store_mode)
 
+        if preinstalled and preinstalled.version == self.version:
+            # the version did not change, but what the project requires and provides may have been
+            self.update_at(env.installation_target, store_mode=preinstalled.installation_info.store_mode)
+
     def _reload(self):
         clear_cached_properties(self)
 
-- 
2.43.0


From 7bc516cdf996d7eb8db1e6c66851d2c12f56f6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:16 +0000
Subject: [PATCH 105/122] fix: a failed operation does not lose the packages it
 would have removed

---
 .../pkm/api/packages/package_installation.py  | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 46a518a..f8d15be 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -20,6 +20,7 @@ from pkm.resolution.dependency_resolver import resolve_dependencies
 from pkm.resolution.pubgrub import UnsolvableProblemException
 from pkm.utils.commons import UnsupportedOperationException
 from pkm.utils.delegations import delegate
+from pkm.utils.files import CopyTransaction
 from pkm.utils.types import Serializable
 from pkm.utils.iterators import first_or_none
 from pkm.utils.multiproc import ProcessPoolExecutor
@@ -310,6 +311,7 @@ class InstallationPlan:
         site = target.site_packages
 
         tasks: List[_PackageOperationTask] = []
+        removal_tasks: List[_PackageOperationTask] = []
 
         for package, operation in operations.items():
             if operation == PackageOperation.SKIP:
@@ -317,17 +319,22 @@ class InstallationPlan:
 
             store_mode = store_modes.get(package.name_key, StoreMode.AUTO)
             user_request = self.user_requests.get(package.name_key)
-            tasks.append(_PackageOperationTask(package, operation, store_mode, user_request, target))
+            task = _PackageOperationTask(package, operation, store_mode, user_request, target)
+            (removal_tasks if operation == PackageOperation.REMOVE else tasks).append(task)
 
         parallelism = pkm.config.concurrency_mode if concurrency_mode is None else concurrency_mode
         threads = pkm.threads if parallelism != "none" else None
 
-        if parallelism == "proc" and sum(1 for it in tasks if it.can_be_multiprocessesd()) > 1:
-            procpool = pkm.processes
-            await_all_promises_or_cancel([task.execute(threads, procpool) for task in tasks])
+        with CopyTransaction() as removals:  # if another operation fails, the packages that depend on these are kept
+            for task in removal_tasks:
+                task.execute(None, None, removals).result()
 
-        else:
-            await_all_promises_or_cancel([task.execute(threads, None) for task in tasks])
+            if parallelism == "proc" and sum(1 for it in tasks if it.can_be_multiprocessesd()) > 1:
+                procpool = pkm.processes
+                await_all_promises_or_cancel([task.execute(threads, procpool) for task in tasks])
+
+            else:
+                await_all_promises_or_cancel([task.execute(threads, None) for task in tasks])
 
         site.reload()
 
@@ -344,7 +351,9 @@ class _PackageOperationTask:
     def can_be_multiprocessesd(self):
         return isinstance(self._package, Serializable)
 
-    def execute(self, threadpool: ThreadPoolExecutor, procpool: Optional[ProcessPoolExecutor]) -> Promise:
+    def execute(
+            self, threadpool: Optional[ThreadPoolExecutor], procpool: Optional[ProcessPoolExecutor],
+            removals: Optional[CopyTransaction] = None) -> Promise:
         operation, store_mode, user_request, package, target = \
             self._operation, self._store_mode, self._user_request, self._package, self._target
 
@@ -359,7 +368,7 @@ class _PackageOperationTask:
             promise = Promise.execute(
                 executor, _po_execute, package, "update_at", target, store_mode=store_mode, user_request=user_request)
         elif operation == PackageOperation.REMOVE:
-            promise = Promise.execute(executor, _po_execute, package, "uninstall")
+            promise = Promise.execute(executor, _po_execute, package, "uninstall", removals)
 
         if not promise:
             raise UnsupportedOperationException(f"unsupported package operation {self._operation}")
-- 
2.43.0


From fa3a5ea3b987c6069a12afe79f00550f11dfc61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:44 +0000
Subject: [PATCH 106/122] fix: a container is found again under any spelling of
 its name

---
 pkm/src/pkm/api/environments/package_containers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 95a5f28..ce6df91 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -132,8 +132,12 @@ class PackageContainers:
                 repocfg.save()
                 app = app.descriptor.to_dependency()
 
+            wrapper_name = app.package_name + _CONTAINERIZED_WRAPPER_SUFFIX
+            if installed_wrapper := self._target.site_packages.installed_package(wrapper_name):
+                wrapper_name = installed_wrapper.name  # the container is named after it
+
             pyprj.project = ProjectConfig(
-                name=app.package_name + _CONTAINERIZED_WRAPPER_SUFFIX,
+                name=wrapper_name,
                 version=Version.parse(_CONTAINERIZED_WRAPPER_VERSION)
             )
 
-- 
2.43.0


From 101cfe2f61bf9671d90e68b623b039e52b6d6085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:31 +0000
Subject: [PATCH 107/122] fix: lib64 of an environment that is created at a
 relative path leads to its lib

---
 pkm/src/pkm/api/environments/environment_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environment_builder.py b/pkm/src/pkm/api/environments/environment_builder.py
index 524910a..90ec69f 100644
--- a/pkm/src/pkm/api/environments/environment_builder.py
+++ b/pkm/src/pkm/api/environments/environment_builder.py
@@ -78,7 +78,7 @@ class EnvironmentBuilder:
             path.mkdir(exist_ok=True, parents=True)
 
         if not ispc.is_32bit_interpreter and ispc['os']['name'] == 'posix' and sys_platform != 'darwin':
-            (env_path / 'lib64').symlink_to(env_path / 'lib')
+            (env_path / 'lib64').symlink_to('lib', target_is_directory=True)
 
         # copy needed files
         if is_windows:
-- 
2.43.0


From 925e379cfd4d45916918d75b2597eb38c9bf69f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:35 +0000
Subject: [PATCH 108/122] fix: an environment whose interpreter was replaced is
 introspected again

---
 pkm/src/pkm/api/environments/environment_introspection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 3bf69d1..4fa89f5 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -417,9 +417,13 @@ class EnvironmentIntrospection:
             warnings.warn(f"env introspection is corrupted, rebuilding it: {err}")
             data = {}
 
+        # the interpreter may be replaced (e.g., upgraded) without changing its path
+        interpreter_file = interpreter_path.resolve()
+        interpreter_id = f"{interpreter_path.absolute()}\n{interpreter_file}\n{interpreter_file.stat().st_mtime_ns}"
+
         # noinspection InsecureHash
         current_introspection_sentinal = hashlib.md5(
-            f"{interpreter_path.absolute()}\n{_INTROSPECTION_CODE}".encode()).hexdigest()
+            f"{interpreter_id}\n{_INTROSPECTION_CODE}".encode()).hexdigest()
         if (introspection_sentinal := data.get('introspection')) \
                 and introspection_sentinal == current_introspection_sentinal:
             return cls(data=data)
-- 
2.43.0


From 9c7fb768b7f6ba15141fb2f6fdf6b4c3aef1dd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:38 +0000
Subject: [PATCH 109/122] fix: processes of an environment get the given
 variables, and can be executed without any

---
 pkm/src/pkm/api/environments/environment.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment.py b/pkm/src/pkm/api/environments/environment.py
index c84813d..3b57e2b 100644
--- a/pkm/src/pkm/api/environments/environment.py
+++ b/pkm/src/pkm/api/environments/environment.py
@@ -211,8 +211,9 @@ class Environment(HasAttachedRepository, Serializable):
         :param env: environment variables
         """
 
+        env = dict(os.environ if env is None else env)
         with self.activate(env):
-            execvpe(cmd, args, env)
+            execvpe(cmd, args or [], env)
 
     def run_proc(self, args: List[str], **subprocess_run_kwargs) -> CompletedProcess:
         """
@@ -224,10 +225,8 @@ class Environment(HasAttachedRepository, Serializable):
         :return: a `CompletedProcess` instance describing the completion of the requested process
         """
         env = {}
-        if extra_env := subprocess_run_kwargs.get('env'):
-            env.update(extra_env)
-        else:
-            env.update(os.environ)
+        given_env = subprocess_run_kwargs.get('env')
+        env.update(os.environ if given_env is None else given_env)
 
         subprocess_run_kwargs['env'] = env
         with self.activate(env):
-- 
2.43.0


From 2d9191208ca595b7f64379a212217e880724af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:49 +0000
Subject: [PATCH 110/122] fix: results of workers that do not arrive in one
 piece are read completely

---
 pkm/src/pkm/utils/multiproc/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/multiproc/__init__.py b/pkm/src/pkm/utils/multiproc/__init__.py
index 8dce10f..bf0091c 100644
--- a/pkm/src/pkm/utils/multiproc/__init__.py
+++ b/pkm/src/pkm/utils/multiproc/__init__.py
@@ -105,7 +105,7 @@ class _WorkerHandler:
         executable = sys.executable
         self._proc = Popen(
             args=[executable, "-u", str(Path(__file__).parent / "worker.py")],
-            stderr=PIPE, stdout=PIPE, stdin=PIPE, bufsize=0,
+            stderr=PIPE, stdout=PIPE, stdin=PIPE,
             env=os.environ
         )
 
-- 
2.43.0


From ef3b299f4206b2a8cacd70f8c180d515be37fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:52 +0000
Subject: [PATCH 111/122] fix: tasks that use the standard streams of their
 worker do not break its channels

---
 pkm/src/pkm/utils/multiproc/__init__.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/utils/multiproc/__init__.py b/pkm/src/pkm/utils/multiproc/__init__.py
index bf0091c..7d89a1a 100644
--- a/pkm/src/pkm/utils/multiproc/__init__.py
+++ b/pkm/src/pkm/utils/multiproc/__init__.py
@@ -72,9 +72,15 @@ class _Worker:
         self._stdout_lock = Lock()
 
     def _attach_to_process(self):
-        self._stdout = sys.stdout.buffer
-        self._stderr = sys.stderr.buffer
-        self._stdin = sys.stdin.buffer
+        # the standard streams of the process are the channels to the pool, move them away so that no task (or a process
+        # that it starts) can read commands from them or write between the results
+        self._stdin, self._stdout, self._stderr = (
+            os.fdopen(os.dup(fd), mode) for fd, mode in enumerate(("rb", "wb", "wb")))
+
+        null = os.open(os.devnull, os.O_RDWR)
+        for fd in range(3):
+            os.dup2(null, fd)
+        os.close(null)
 
         sys.stdout = _StandardStreamPipe(self._stdout, 0, self._stdout_lock)
         sys.stderr = _StandardStreamPipe(self._stdout, 1, self._stdout_lock)
-- 
2.43.0


From e65295cfcc1e419769c0faa36b61ccc24c71aba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:56 +0000
Subject: [PATCH 112/122] fix: lost workers do not fail other tasks, and a
 closed pool completes its tasks and ends its workers

---
 pkm/src/pkm/utils/multiproc/__init__.py | 27 +++++++++++++------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pkm/src/pkm/utils/multiproc/__init__.py b/pkm/src/pkm/utils/multiproc/__init__.py
index 7d89a1a..3c69750 100644
--- a/pkm/src/pkm/utils/multiproc/__init__.py
+++ b/pkm/src/pkm/utils/multiproc/__init__.py
@@ -115,13 +115,10 @@ class _WorkerHandler:
             env=os.environ
         )
 
-    def _should_terminate(self):
-        return self._pool.is_closed() or self._proc.poll() is not None
-
     def _handle_log(self):
         try:
             stream = [sys.stdout, sys.stderr]
-            while not self._should_terminate():
+            while True:
                 write: _StdWrite = pickle.load(self._proc.stdout)
                 stream[write.stream_id].write(write.msg)
         except EOFError:
@@ -134,22 +131,23 @@ class _WorkerHandler:
     def _handle_work(self):
         q = self._pool._task_queue  # noqa
         try:
-            while not self._should_terminate():
+            while True:
 
-                try:
-                    next_task: _Task = q.get(block=True, timeout=self._pool.max_inactivity_seconds)
+                try:  # a closed pool only completes the tasks that it already has
+                    next_task: _Task = q.get(
+                        block=not self._pool.is_closed(), timeout=self._pool.max_inactivity_seconds)
                 except Empty:
-                    self.kill()
-                    self._proc.wait()
                     return
 
                 task_result: _TaskResult = cast(_TaskResult, next_task.result)
                 next_task.result = None
+                task_sent = False
 
                 try:
                     if task_result.attach_worker(self):
                         # pickle before writing, a partially written task would break the worker for the next tasks
                         task_data = pickle.dumps(next_task)
+                        task_sent = True
                         self._proc.stdin.write(task_data)
                         self._proc.stdin.flush()
 
@@ -163,9 +161,13 @@ class _WorkerHandler:
                             task_result.deferred.complete(proc_result.result)
                 except BaseException as e:
                     task_result.deferred.fail(e)
+                    if task_sent:  # the worker ended, or it is not known how much of its response is still unread
+                        return
                 finally:
                     q.task_done()
         finally:
+            self.kill()
+            self._proc.wait()
             # noinspection PyProtectedMember
             self._pool._removed_worker(self)
 
@@ -254,20 +256,19 @@ class ProcessPoolExecutor(Closeable):
         self._spawn_new_worker_if_needed()
 
     def _spawn_new_worker_if_needed(self):
-        new_worker = None
         with self._workers_lock:
             n_workers = len(self._workers)
             if self._task_queue.unfinished_tasks > n_workers and n_workers < self._max_workers:
                 new_worker = _WorkerHandler(self, f"worker {self._next_worker_id}")
                 self._next_worker_id += 1
                 self._workers[new_worker.name] = new_worker
-        if new_worker:
-            new_worker.start()
+                new_worker.start()
 
     def close(self):
         self._closed = True
 
-        workers = list(self._workers.values())
+        with self._workers_lock:
+            workers = list(self._workers.values())
         for _ in workers:
             self.execute(sys.exit, 0)
 
-- 
2.43.0


From 598a3db903da504ddbae2370eca3f7ff08d00019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:38 +0000
Subject: [PATCH 113/122] fix: packages in versions other than required do not
 prevent a removal

---
 pkm/src/pkm/api/packages/package_installation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index f8d15be..c6595b0 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 from abc import ABC
 from concurrent.futures import ThreadPoolExecutor
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from enum import Enum
 from pathlib import Path
 from typing import List, Dict, Iterable, Optional, Union, Set, TYPE_CHECKING
@@ -438,7 +438,11 @@ class _RemovalPackage(Package, Serializable):
     def dependencies(
             self, target: "PackageInstallationTarget", extras: Optional[List[str]] = None) -> List["Dependency"]:
         sitep = target.site_packages
-        return [d for d in self.package.dependencies(target, extras) if sitep.installed_package(d.package_name)]
+
+        # a removal cannot change versions: packages that should have been in other versions do not prevent it
+        return [
+            replace(d, version_spec=AllowAllVersions) for d in self.package.dependencies(target, extras)
+            if sitep.installed_package(d.package_name)]
 
     def is_compatible_with(self, env: "Environment") -> bool:
         return self.package.is_compatible_with(env)
-- 
2.43.0


From 02c0c8b014894fb8031f6f36d64afe0de0ee2aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:41 +0000
Subject: [PATCH 114/122] fix: a failed build leaves the distributions of the
 project as they were

---
 pkm/src/pkm/api/projects/project.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index bad0187..c187814 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -22,7 +22,7 @@ from pkm.api.versions.version import StandardVersion, Version, NamedVersion
 from pkm.api.versions.version_specifiers import AllowAllVersions
 from pkm.resolution.packages_lock import PackagesLock
 from pkm.utils.commons import UnsupportedOperationException
-from pkm.utils.files import temp_dir
+from pkm.utils.files import CopyTransaction, temp_dir
 from pkm.utils.types import Serializable
 from pkm.utils.properties import cached_property, clear_cached_properties
 
@@ -313,7 +313,15 @@ class Project(Package, HasAttachedRepository, Serializable):
         elif required_distribution_type == PKM_DIST_CFG_TYPE_CAPP:
             builders = [self.build_app_sdist]
 
-        return [build(target_dir) for build in builders]
+        target_dir = target_dir or (self.directories.dist / str(self.version))
+
+        # a build that fails leaves the target directory as it was, without distributions that are missing or partial
+        with temp_dir() as build_dir, CopyTransaction() as transaction:
+            distributions = [build(build_dir) for build in builders]
+            for distribution in distributions:
+                transaction.copy(distribution, target_dir / distribution.name)
+
+        return [target_dir / distribution.name for distribution in distributions]
 
     def is_pkm_project(self) -> bool:
         """
-- 
2.43.0


From 43bd1463b08b3a676485db8e758bbe7502ff4328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:44 +0000
Subject: [PATCH 115/122] fix: cleaning the distributions unlinks linked
 directories

---
 pkm/src/pkm/api/projects/project.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index c187814..16f5bbc 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -402,7 +402,10 @@ class ProjectDirectories:
             if file.is_dir():
                 if file.name in keep_versions:
                     continue
-                shutil.rmtree(file)
+                if file.is_symlink():
+                    file.unlink()  # what it points to is not removed
+                else:
+                    shutil.rmtree(file)
             else:
                 file.unlink()
 
-- 
2.43.0


From ecf387080c57e284e1c1edc9c86c92b21ef7ce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:47 +0000
Subject: [PATCH 116/122] fix: deactivation restores an empty path variable

---
 pkm/src/pkm/api/environments/environments_zoo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index 0988049..81c0dc3 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -75,7 +75,7 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
         try:
             yield
         finally:
-            if prev_path:
+            if prev_path is not None:
                 env["PATH"] = prev_path
             else:
                 del env["PATH"]
-- 
2.43.0


From 4e07593b2f41a1a3cfc5ee2b424fb15e7f230458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:31 +0000
Subject: [PATCH 117/122] fix: updates of packages are not bound to what was
 locked before

---
 pkm/src/pkm/api/projects/project.py     |  7 ++++---
 pkm/src/pkm/resolution/packages_lock.py | 14 ++++++++++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 16f5bbc..1446cb2 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -209,9 +209,10 @@ class Project(Package, HasAttachedRepository, Serializable):
         env = self.attached_environment
         preinstalled = env.site_packages.installed_package(self.name)
 
-        env.install(
-            [dependency], repository=self.attached_repository,
-            updates=updates, store_modes=packages_store_mode)
+        with self.lock.temporarily_unlocked(packages_to_update or ()):
+            env.install(
+                [dependency], repository=self.attached_repository,
+                updates=updates, store_modes=packages_store_mode)
 
         if preinstalled and preinstalled.version == self.version:
             # the version did not change, but what the project requires and provides may have been
diff --git a/pkm/src/pkm/resolution/packages_lock.py b/pkm/src/pkm/resolution/packages_lock.py
index 98c1376..4912a41 100644
--- a/pkm/src/pkm/resolution/packages_lock.py
+++ b/pkm/src/pkm/resolution/packages_lock.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from contextlib import contextmanager
 from dataclasses import dataclass
 from pathlib import Path
 from typing import List, Dict, Optional, Iterable
@@ -53,6 +54,19 @@ class PackagesLock:
 
         return self
 
+    @contextmanager
+    def temporarily_unlocked(self, package_names: Iterable[str]):
+        """
+        context manager, the given package names are unlocked until its end
+        :param package_names: the packages to unlock
+        """
+        locked_packages = dict(self._locked_packages)
+        self.unlock_packages(package_names)
+        try:
+            yield self
+        finally:
+            self._locked_packages = locked_packages
+
     def env_specific_locks(self, env: Environment):
         """
         :param env: the environment to extract lock information to
-- 
2.43.0


From c4ffab73e4fa4dad8b87d1e46e994443fb8b1b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:34 +0000
Subject: [PATCH 118/122] fix: dist-info directories that are removed while
 they are looked at are not taken for files

---
 pkm/src/pkm/api/distributions/distinfo.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/distributions/distinfo.py b/pkm/src/pkm/api/distributions/distinfo.py
index 36254de..50414bf 100644
--- a/pkm/src/pkm/api/distributions/distinfo.py
+++ b/pkm/src/pkm/api/distributions/distinfo.py
@@ -4,6 +4,7 @@ import json
 import warnings
 from dataclasses import dataclass
 from pathlib import Path
+from stat import S_ISDIR
 from typing import Optional, List, Iterable, Dict, Iterator, Sequence, TYPE_CHECKING, Type
 
 from pkm.api.dependencies.dependency import Dependency
@@ -167,7 +168,12 @@ class DistInfo(Serializable):
         :return: the loaded distinfo
         """
 
-        if path.exists() and not path.is_dir():
+        try:
+            is_dir = S_ISDIR(path.stat().st_mode)
+        except OSError:
+            is_dir = True  # it is not there (may also be removed at this very moment, by a concurrent task)
+
+        if not is_dir:
             raise ValueError(f"the given path is not a directory: {path}")
 
         if path.suffix != '.dist-info' and not non_standard_name_ok:
-- 
2.43.0


From d1a9f24cd6b28e31a862b908f12efce4b84806b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:14 +0000
Subject: [PATCH 119/122] fix: reports print names, requirements and paths as
 they are, also when they resemble markup

---
 .../src/pkm_cli/reports/added_repositories_report.py   |  4 +++-
 .../src/pkm_cli/reports/attached_repository_report.py  |  4 +++-
 pkm-cli/src/pkm_cli/reports/environment_report.py      | 10 ++++++----
 pkm-cli/src/pkm_cli/reports/package_report.py          |  7 ++++---
 pkm-cli/src/pkm_cli/reports/project_report.py          | 10 ++++++----
 pkm-cli/src/pkm_cli/reports/report.py                  |  5 +++--
 6 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/reports/added_repositories_report.py b/pkm-cli/src/pkm_cli/reports/added_repositories_report.py
index 033f028..a376ce3 100644
--- a/pkm-cli/src/pkm_cli/reports/added_repositories_report.py
+++ b/pkm-cli/src/pkm_cli/reports/added_repositories_report.py
@@ -1,5 +1,7 @@
 from typing import Dict
 
+from rich.markup import escape
+
 from pkm.api.pkm import HasAttachedRepository
 from pkm.utils.sequences import pop_or_none
 from pkm.utils.sets import add_if_absent
@@ -25,7 +27,7 @@ class AddedRepositoriesReport(Report):
                         desc = f"{name}: {added_repository.type}"
                         if added_repository.bind_only:
                             desc += " (bind only)"
-                        Display.print(desc)
+                        Display.print(escape(desc))
 
 
 def _context_name(context: HasAttachedRepository) -> str:
diff --git a/pkm-cli/src/pkm_cli/reports/attached_repository_report.py b/pkm-cli/src/pkm_cli/reports/attached_repository_report.py
index 10dcd06..f83ddeb 100644
--- a/pkm-cli/src/pkm_cli/reports/attached_repository_report.py
+++ b/pkm-cli/src/pkm_cli/reports/attached_repository_report.py
@@ -1,5 +1,7 @@
 from typing import Dict
 
+from rich.markup import escape
+
 from pkm.api.pkm import HasAttachedRepository
 from pkm_cli.display.display import Display
 from pkm_cli.reports.report import Report
@@ -28,4 +30,4 @@ class AttachedRepositoryReport(Report):
                             if not repo_value.bind_only:
                                 repositories_olist.item(f"{repo_name}: {repo_value.type}")
                         if config.package_bindings:
-                            self.writeln(f" + Bound Packages: {','.join(config.package_bindings.keys())}")
+                            self.writeln(escape(f" + Bound Packages: {','.join(config.package_bindings.keys())}"))
diff --git a/pkm-cli/src/pkm_cli/reports/environment_report.py b/pkm-cli/src/pkm_cli/reports/environment_report.py
index 7fd5a44..b6a3016 100644
--- a/pkm-cli/src/pkm_cli/reports/environment_report.py
+++ b/pkm-cli/src/pkm_cli/reports/environment_report.py
@@ -1,6 +1,8 @@
 from dataclasses import dataclass, field
 from typing import Dict, List
 
+from rich.markup import escape
+
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
 from pkm.api.environments.package_containers import PackageContainer
@@ -29,7 +31,7 @@ class EnvironmentReport(Report):
     def display(self, options: Dict[str, bool]):
         env = self._env
         with self.section("Basic Environment Info"):
-            Display.print(f"Path: {env.path}")
+            Display.print(escape(f"Path: {env.path}"))
             Display.print(f"Interpreter Version: {env.interpreter_version}")
 
         containers: Dict[str, PackageContainer] = {
@@ -65,7 +67,7 @@ class EnvironmentReport(Report):
                 for container in containers.values():
                     cp = container.containerized_package
 
-                    self.writeln(f"Container: {cp.name} {cp.version}")
+                    self.writeln(escape(f"Container: {cp.name} {cp.version}"))
                     with self.ulist('+', 'No Containers Installed') as containers_ulist:
                         for plugin in container.list_installed_plugins():
                             containers_ulist.item(f"{plugin.name} {plugin.version}")
@@ -97,8 +99,8 @@ class _PackageInfo:
             else:
                 dsp += "(orphan)"
 
-        Display.print(dsp)
+        Display.print(escape(dsp))
         if self.missing_dependencies:
             Display.print("* WARNING: this package has missing dependencies: ")
             for md in self.missing_dependencies:
-                Display.print(f"  - {md}")
+                Display.print(escape(f"  - {md}"))
diff --git a/pkm-cli/src/pkm_cli/reports/package_report.py b/pkm-cli/src/pkm_cli/reports/package_report.py
index 6cfc942..34dea85 100644
--- a/pkm-cli/src/pkm_cli/reports/package_report.py
+++ b/pkm-cli/src/pkm_cli/reports/package_report.py
@@ -1,6 +1,7 @@
 from typing import Optional, Any, Dict
 
 from rich.markdown import Markdown
+from rich.markup import escape
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
@@ -36,9 +37,9 @@ class PackageReport(Report):
         match = repository.match(self._dependency, env)
 
         if not match:
-            Display.print(f"No package matched for {self._dependency}")
+            Display.print(escape(f"No package matched for {self._dependency}"))
         else:
-            Display.print(f"Dependency: {self._dependency}")
+            Display.print(escape(f"Dependency: {self._dependency}"))
             Display.print(line)
             if len(match) > 3:
                 Display.print(
@@ -72,7 +73,7 @@ class PackageReport(Report):
             Display.print(f"Metadata (from Version {selected.version})")
             Display.print(line)
             if metadata := selected.published_metadata:
-                Display.print(f"Summary: {metadata.summary}")
+                Display.print(escape(f"Summary: {metadata.summary}"))
                 Display.print(f"Requires Python: {metadata.required_python_spec}")
                 desc = Markdown(metadata.description)
 
diff --git a/pkm-cli/src/pkm_cli/reports/project_report.py b/pkm-cli/src/pkm_cli/reports/project_report.py
index 6ed9a7f..fab645f 100644
--- a/pkm-cli/src/pkm_cli/reports/project_report.py
+++ b/pkm-cli/src/pkm_cli/reports/project_report.py
@@ -1,5 +1,7 @@
 from typing import Dict, Optional
 
+from rich.markup import escape
+
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.packages.site_packages import InstalledPackage
 from pkm.api.projects.project import Project
@@ -22,17 +24,17 @@ class ProjectReport(Report):
         site_ = env.site_packages
 
         with self.section("Project Basic Info"):
-            self.writeln(f"Name: {self._project.name}")
+            self.writeln(escape(f"Name: {self._project.name}"))
             self.writeln(f"Version: {self._project.version}")
-            self.writeln(f"Description: {self._project.config.project.description}")
+            self.writeln(escape(f"Description: {self._project.config.project.description}"))
             self.writeln(f"Requires Python: {self._project.config.project.requires_python}")
 
         if self._project.group:
             with self.section("Project Group"):
-                self.writeln(f"Path: {self._project.group.path}")
+                self.writeln(escape(f"Path: {self._project.group.path}"))
 
         with self.section("Attached Environment"):
-            self.writeln(f"Path: {env.path}")
+            self.writeln(escape(f"Path: {env.path}"))
             self.writeln(f"Interpreter Version: {env.interpreter_version}")
 
         dependencies = self._project.config.project.dependencies
diff --git a/pkm-cli/src/pkm_cli/reports/report.py b/pkm-cli/src/pkm_cli/reports/report.py
index 58e8d20..04a189c 100644
--- a/pkm-cli/src/pkm_cli/reports/report.py
+++ b/pkm-cli/src/pkm_cli/reports/report.py
@@ -5,6 +5,7 @@ from contextlib import contextmanager
 from typing import ContextManager, Optional, Dict
 
 from rich import markup
+from rich.markup import escape
 
 from pkm_cli.display.display import Display
 
@@ -16,7 +17,7 @@ class ReportUList:
         self.empty = True
 
     def item(self, text: str):
-        self._report.writeln(f" {self._item_prefix} {text}", 3)
+        self._report.writeln(f" {self._item_prefix} {escape(text)}", 3)
         self.empty = False
 
 
@@ -26,7 +27,7 @@ class ReportOList:
         self.index = 1
 
     def item(self, text: str):
-        self._report.writeln(f" {self.index}. {text}", 3)
+        self._report.writeln(f" {self.index}. {escape(text)}", 3)
         self.index += 1
 
 
-- 
2.43.0


From b6a6508f4f62bbf5dcec52cc21037e316ac43cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:33 +0000
Subject: [PATCH 120/122] fix: package reports find what a project requires
 however its name is spelled

---
 pkm-cli/src/pkm_cli/reports/package_report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm-cli/src/pkm_cli/reports/package_report.py b/pkm-cli/src/pkm_cli/reports/package_report.py
index 34dea85..6bab3a9 100644
--- a/pkm-cli/src/pkm_cli/reports/package_report.py
+++ b/pkm-cli/src/pkm_cli/reports/package_report.py
@@ -51,7 +51,7 @@ class PackageReport(Report):
             context_env: Optional[Environment] = None
             if isinstance(self._context, Project):
                 deps = self._context.config.project.all_dependencies
-                req = [p.version_spec for p in deps if p.package_name == self._dependency.package_name]
+                req = [p.version_spec for p in deps if p.package_name_key == self._dependency.package_name_key]
 
                 if req:
                     Display.print(f"Dependency In Current Project: {', '.join(str(r) for r in req)}")
-- 
2.43.0


From b67f71ab71094a1c4d33c75965d5b159dd974676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:36 +0000
Subject: [PATCH 121/122] fix: environment reports take into account the extras
 that were requested

---
 .../src/pkm_cli/reports/environment_report.py   | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/reports/environment_report.py b/pkm-cli/src/pkm_cli/reports/environment_report.py
index b6a3016..e80a662 100644
--- a/pkm-cli/src/pkm_cli/reports/environment_report.py
+++ b/pkm-cli/src/pkm_cli/reports/environment_report.py
@@ -1,5 +1,5 @@
 from dataclasses import dataclass, field
-from typing import Dict, List
+from typing import Dict, List, Set
 
 from rich.markup import escape
 
@@ -45,8 +45,21 @@ class EnvironmentReport(Report):
             if package.name_key not in containers
         }
 
+        # the extras that were requested of each package, by the user or by other packages
+        extras: Dict[str, Set[str]] = {
+            name_key: set(p.package.user_request.extras or ()) if p.package.user_request else set()
+            for name_key, p in installed_packages.items()}
+
+        pending = list(installed_packages)
+        while pending:
+            p = installed_packages[pending.pop()].package
+            for d in p.dependencies(env.installation_target, list(extras[p.name_key])):
+                if d.package_name_key in extras and not extras[d.package_name_key].issuperset(d.extras or ()):
+                    extras[d.package_name_key].update(d.extras)
+                    pending.append(d.package_name_key)
+
         for p in installed_packages.values():
-            dependencies = p.package.dependencies(env.installation_target)
+            dependencies = p.package.dependencies(env.installation_target, list(extras[p.package.name_key]))
             for d in dependencies:
                 norm_package_name = d.package_name_key
                 if q := installed_packages.get(norm_package_name):
-- 
2.43.0


From 03f2843d69024bb3cf8681b0f69ac52923c5ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:10 +0000
Subject: [PATCH 122/122] fix: information about cached resources is replaced
 at once, concurrent hash checks do not corrupt it

---
 pkm/src/pkm/utils/http/http_client.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 54e3e88..a6c6d39 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -15,6 +15,7 @@ from socket import AddressFamily
 from threading import Lock
 from typing import Deque, Dict, Type, Optional, cast, Any, ContextManager, IO, Union, Iterable
 from urllib.parse import urljoin, urlsplit
+from uuid import uuid4
 
 from pkm.config.configclass import ConfigFile, config, config_field
 from pkm.config.configfiles import TomlConfigIO
@@ -198,6 +199,16 @@ class FetchInfoConfig(ConfigFile):
     hash: Dict[str, str] = config_field(default_factory=dict)
     other_fields = config_field(leftover=True)
 
+    def save(self, path: Path = None):
+        # others may read and save it at the same time, it must never be seen partially written
+        path = path or self.path
+        temp = path.with_name(uuid4().hex)
+        try:
+            super().save(temp)
+            temp.replace(path)
+        finally:
+            temp.unlink(missing_ok=True)
+
 
 @dataclass
 class FetchedResource:
-- 
2.43.0

