From bebb2cfe016fe7fbae1bf5ff06893a951130ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 01/90] fix: replacing a member sets its parent and keeps the
 id index on rejection

---
 xigt/mixins.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 9557ff4..cb61b44 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -68,9 +68,14 @@ class XigtContainerMixin(list):
         except TypeError:
             idx = int(idx)
             cur_obj = list.__getitem__(self, idx)
-        if cur_obj.id is not None:
-            del self._dict[cur_obj.id]
-        self._create_id_mapping(obj)
+        if obj.id is not None and obj.id == cur_obj.id:
+            self._dict[obj.id] = obj
+        else:
+            # raises if the id is taken, so do this before changing anything
+            self._create_id_mapping(obj)
+            if cur_obj.id is not None:
+                del self._dict[cur_obj.id]
+        obj._parent = self._container
         list.__setitem__(self, idx, obj)
 
     def __delitem__(self, obj_id):
-- 
2.43.0


From 8514a1aa0ef0e62c0c437fcae8e24fc2d611af58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 02/90] fix: a rejected append or insert does not re-parent the
 object

---
 xigt/mixins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index cb61b44..a45702b 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -107,14 +107,14 @@ class XigtContainerMixin(list):
 
     def append(self, obj):
         self._assert_type(obj)
-        obj._parent = self._container
         self._create_id_mapping(obj)
+        obj._parent = self._container
         list.append(self, obj)
 
     def insert(self, i, obj):
         self._assert_type(obj)
-        obj._parent = self._container
         self._create_id_mapping(obj)
+        obj._parent = self._container
         list.insert(self, i, obj)
 
     def extend(self, objs):
-- 
2.43.0


From 6fa12a35b406fd47f92f688078ec4340026514c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 03/90] fix: remove and delete act on the given member, not on
 an equal one

---
 xigt/mixins.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index a45702b..eba485d 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -81,7 +81,10 @@ class XigtContainerMixin(list):
     def __delitem__(self, obj_id):
         # NOTE: this method is destructive. check for broken refs here?
         obj = self[obj_id]
-        self.remove(obj)
+        if isinstance(obj_id, int):
+            self._delete(obj_id)
+        else:
+            self.remove(obj)
 
     def get(self, obj_id, default=None):
         try:
@@ -123,9 +126,19 @@ class XigtContainerMixin(list):
 
     def remove(self, obj):
         # NOTE: this method is destructive. check for broken refs here?
+        # prefer obj itself over a member that is merely equal to it
+        for i, member in enumerate(list.__iter__(self)):
+            if member is obj:
+                break
+        else:
+            i = list.index(self, obj)  # raises ValueError for non-members
+        self._delete(i)
+
+    def _delete(self, idx):
+        obj = list.__getitem__(self, idx)
         if obj.id is not None:
             del self._dict[obj.id]
-        list.remove(self, obj)
+        list.__delitem__(self, idx)
 
     def clear(self):
         self._dict.clear()
-- 
2.43.0


From 4fbe0dbb4ea337093804ec5fb96cc084565c2919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 04/90] fix: identifiers and child names must be valid as a
 whole

---
 xigt/metadata.py | 2 +-
 xigt/mixins.py   | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index 9f786d5..7809b00 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -13,7 +13,7 @@ from xigt.errors import XigtError
 # This also excludes colons in the name (because of potential trouble
 # with xml processors treating them as namespace delimiters)
 # http://www.w3.org/TR/2000/WD-xml-2e-20000814#NT-Name
-name_re = re.compile(r'^[^\W\d][-.\w]*$')
+name_re = re.compile(r'^[^\W\d][-.\w]*\Z')
 
 class XigtMetadataMixin(object):
     """
diff --git a/xigt/mixins.py b/xigt/mixins.py
index eba485d..0bf0e50 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -230,8 +230,11 @@ class XigtAttributeMixin(object):
         return self._id
     @id.setter
     def id(self, value):
-        if value is not None and not id_re.match(value):
-            raise ValueError('Invalid ID: {}'.format(value))
+        if value is not None:
+            m = id_re.match(value)
+            # the whole value must be an identifier
+            if m is None or m.end() != len(value):
+                raise ValueError('Invalid ID: {}'.format(value))
         self._id = value
 
     @property
-- 
2.43.0


From dc6285174f20ed162cbc05328e48f31c19729001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 05/90] fix: != is the negation of == on containers

---
 xigt/mixins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 0bf0e50..b0d8322 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -47,6 +47,10 @@ class XigtContainerMixin(list):
         except AttributeError:
             return False
 
+    def __ne__(self, other):
+        # otherwise list.__ne__() is used, which only considers the members
+        return not self == other
+
     def __getitem__(self, obj_id):
         if isinstance(obj_id, (int, slice)):
             return list.__getitem__(self, obj_id)
-- 
2.43.0


From 43d0536070e836749d0a9ff681f6433cfc1be1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 06/90] fix: items, metas and meta children do not equal
 objects of other kinds

---
 xigt/metadata.py | 3 ++-
 xigt/model.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index 7809b00..95db54a 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -149,7 +149,8 @@ class Meta(XigtContainerMixin, XigtAttributeMixin):
     def __eq__(self, other):
         try:
             return (
-                self.text == other.text
+                isinstance(other, Meta)
+                and self.text == other.text
                 and XigtContainerMixin.__eq__(self, other)
                 and XigtAttributeMixin.__eq__(self, other)
             )
diff --git a/xigt/model.py b/xigt/model.py
index 014c9ac..9e03600 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -346,7 +346,8 @@ class Item(XigtAttributeMixin, XigtReferenceAttributeMixin):
     def __eq__(self, other):
         try:
             return (
-                self.text == other.text
+                isinstance(other, Item)
+                and self.text == other.text
                 and XigtAttributeMixin.__eq__(self, other)
             )
         except AttributeError:
-- 
2.43.0


From a47612db9787130bf44248565b212fa6297ffdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:22 +0000
Subject: [PATCH 07/90] fix: inherited attribute lookup keeps the qualified key

---
 xigt/mixins.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index b0d8322..92778be 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -223,9 +223,8 @@ class XigtAttributeMixin(object):
             return self.attributes[key]
         except KeyError:
             if inherit and _has_parent(self):
-                return self._parent.get_attribute(
-                    key, default, inherit, namespace=namespace
-                )
+                # the key is already qualified with the namespace, if any
+                return self._parent.get_attribute(key, default, inherit)
             else:
                 return default
 
-- 
2.43.0


From 1ca83573342ca070343e18ce9ca7158df803189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:43 +0000
Subject: [PATCH 08/90] fix: members of a metadata sequence can be selected by
 namespace

---
 xigt/mixins.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 92778be..e60ef6f 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -99,8 +99,10 @@ class XigtContainerMixin(list):
 
     def select(self, **kwargs):
         # handle namespace separately so we can lookup the nsmap
-        if 'namespace' in kwargs and kwargs['namespace'] in self.nsmap:
-            kwargs['namespace'] = self.nsmap[kwargs['namespace']]
+        # (the container differs from self for metadata sequences)
+        nsmap = self._container.nsmap
+        if 'namespace' in kwargs and kwargs['namespace'] in nsmap:
+            kwargs['namespace'] = nsmap[kwargs['namespace']]
         def match(x):
             return all(getattr(x, k, None) == v for k, v in kwargs.items())
         return filter(match, self)
-- 
2.43.0


From ff593514ed25a5f8087b4652bc1803dce49d8733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 09/90] fix: a corpus without igts can be iterated in any mode,
 and incremental loading resumes where it stopped

---
 xigt/model.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index 9e03600..a4f3d36 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -78,7 +78,7 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         if mode == FULL:
             self.extend(igts or [])
         else:
-            self._generator = igts
+            self._generator = iter(igts or [])
 
     def __repr__(self):
         return '<XigtCorpus object (id: {}) with {} Igts at {}>'.format(
@@ -96,13 +96,23 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         if self.mode == FULL:
             for igt in XigtContainerMixin.__iter__(self):
                 yield igt
+        elif self.mode == INCREMENTAL:
+            # those that are already loaded come first
+            i = 0
+            while True:
+                while i < len(self):
+                    yield list.__getitem__(self, i)
+                    i += 1
+                try:
+                    igt = next(self._generator)
+                except StopIteration:
+                    break
+                self.append(igt)
+            self.mode = FULL
         else:
             for igt in self._generator:
-                if self.mode == INCREMENTAL:
-                    self.add(igt)
-                else:
-                    # don't add, but set the parent
-                    igt._parent = self
+                # don't add, but set the parent
+                igt._parent = self
                 yield igt
             self.mode = FULL
 
-- 
2.43.0


From 317e34724b56662764de49959d7550729872dece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 10/90] fix: sort_tiers copes with cyclic and dangling
 references and tiers without ids

---
 xigt/model.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index a4f3d36..73c33ff 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -229,25 +229,31 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
             return ref.referrers(self, id, refattrs=refattrs)
 
     def sort_tiers(self, refattrs=(SEGMENTATION, ALIGNMENT, CONTENT)):
-        idx = {t.id: i+1 for i, t in enumerate(self)}  # initial index
-        pr = {}  # prioritized referent
+        # initial index (tiers without an id cannot be referred to)
+        idx = {t.id: i for i, t in enumerate(self) if t.id is not None}
+        pr = []  # prioritized referent
         for t in self:
             ra_i = next(
                 ((ra, i) for i, ra in enumerate(refattrs)
                  if ra in t.attributes),
                 None
             )
-            if ra_i is not None:
-                pr[t.id] = (t.get_attribute(ra_i[0]), ra_i[1])
+            if ra_i is not None and t.attributes[ra_i[0]] in idx:
+                pr.append((idx[t.attributes[ra_i[0]]], ra_i[1]))
+            else:
+                pr.append(None)
         dfi = {}  # depth-first index
-        for t in self:
-            key = [(idx[t.id],0)]  # default value
-            tmp = pr.get(t.id)
-            while tmp:  # iterative depth first
-                key.append((idx[tmp[0]], tmp[1]))
-                tmp = pr.get(tmp[0])
-            dfi[t.id] = tuple(reversed(key))  # highest ancestor first
-        self.sort(key=lambda t: dfi[t.id])
+        for i, t in enumerate(self):
+            key = [(i, 0)]  # default value
+            seen = set([i])
+            tmp = pr[i]
+            # iterative depth first; stop at cycles
+            while tmp and tmp[0] not in seen:
+                key.append(tmp)
+                seen.add(tmp[0])
+                tmp = pr[tmp[0]]
+            dfi[id(t)] = tuple(reversed(key))  # highest ancestor first
+        self.sort(key=lambda t: dfi[id(t)])
 
 
 class Tier(XigtContainerMixin, XigtAttributeMixin,
-- 
2.43.0


From d4f7137ff5b09121d7144fc178432e02c459cb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:35 +0000
Subject: [PATCH 11/90] fix: refresh_indices forgets items that are gone and
 does not index missing ids

---
 xigt/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xigt/model.py b/xigt/model.py
index 73c33ff..e5eb622 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -165,9 +165,12 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
 
         xs = [i for t in self.tiers for i in t.items]
         if items:
-            idict = self._itemdict
+            # start over so removed or renamed items are not found
+            idict = self._itemdict = {}
             for item in xs:
                 i_id = item.id
+                if i_id is None:
+                    continue
                 if idict.get(i_id, item) != item:
                     warnings.warn(
                         'Item "{}" already exists in Igt.'.format(i_id),
-- 
2.43.0


From 99eefad0b3bc1efae25ced249a2cfd828df69695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:28 +0000
Subject: [PATCH 12/90] fix: setting a reference attribute to None removes it

---
 xigt/mixins.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index e60ef6f..d978a74 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -296,23 +296,30 @@ class XigtReferenceAttributeMixin(object):
             raise XigtError('Cannot retrieve referrers; unspecified id.')
         return self.igt.referrers(self.id, refattrs=refattrs)
 
+    def _set_refattr(self, refattr, value):
+        # None means the attribute is not specified, as when instantiating
+        if value is None:
+            self.attributes.pop(refattr, None)
+        else:
+            self.attributes[refattr] = value
+
     @property
     def alignment(self):
         return self.attributes.get(ALIGNMENT)
     @alignment.setter
     def alignment(self, value):
-        self.attributes[ALIGNMENT] = value
+        self._set_refattr(ALIGNMENT, value)
 
     @property
     def content(self):
         return self.attributes.get(CONTENT)
     @content.setter
     def content(self, value):
-        self.attributes[CONTENT] = value
+        self._set_refattr(CONTENT, value)
 
     @property
     def segmentation(self):
         return self.attributes.get(SEGMENTATION)
     @segmentation.setter
     def segmentation(self, value):
-        self.attributes[SEGMENTATION] = value
+        self._set_refattr(SEGMENTATION, value)
-- 
2.43.0


From 710807444c8f1be7a2b0f09e66b28464f58d42ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:41 +0000
Subject: [PATCH 13/90] fix: compress() does not merge spans separated by more
 than one character

---
 xigt/ref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/ref.py b/xigt/ref.py
index a3e8b2a..7ead6cf 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -84,7 +84,8 @@ def compress(expression):
     selection = []
     last_id = None
     for (pre, _id, _range) in robust_ref_re.findall(expression):
-        if _range and _id == last_id:
+        # (only single-character delimiters are possible within a range)
+        if _range and _id == last_id and len(pre) == 1:
             selection.extend([pre, _range])
             continue
         if selection:
-- 
2.43.0


From 5f3d71ff910d705f8955c784939101cc9b9672f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 14/90] fix: indexed referrers list each referring object once

---
 xigt/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xigt/model.py b/xigt/model.py
index e5eb622..0bf1011 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -198,7 +198,10 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
                 for obj_id, ra_map in ids_map.items():
                     for refattr, ref_ids in ra_map.items():
                         for ref_id in ref_ids:
-                            inv_ids_map[ref_id][refattr].append(obj_id)
+                            # ref_ids may have the same id more than once
+                            rr_ids = inv_ids_map[ref_id][refattr]
+                            if obj_id not in rr_ids:
+                                rr_ids.append(obj_id)
                 self._referrer_cache = inv_ids_map
 
     @property
-- 
2.43.0


From 6602ec51acedd271f3206e822a2d103633068730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 15/90] fix: the deprecated alignment functions report missing
 tiers and items as intended

---
 xigt/ref.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/xigt/ref.py b/xigt/ref.py
index 7ead6cf..3ee58ef 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -1,8 +1,13 @@
 
 import re
+import warnings
 from collections import namedtuple
 
-from xigt.errors import (XigtLookupError, XigtStructureError)
+from xigt.errors import (
+    XigtLookupError,
+    XigtStructureError,
+    XigtAttributeError
+)
 
 ### Alignment Expressions ####################################################
 
@@ -299,7 +304,7 @@ def get_aligned_tier(tier, algnattr):
     if tgt_tier_id is None:
         raise XigtAttributeError(
             'Tier {} does not specify an alignment "{}".'
-            .format(tgt_tier_id, algnattr)
+            .format(tier.id, algnattr)
         )
     tgt_tier = tier.igt.get(tgt_tier_id)
     return tgt_tier
@@ -344,10 +349,10 @@ def resolve_alignment(tier, item_id, selection, plus=delim1, comma=delim2):
         return ''
     else:
         if selection == '':
-            return item.get_content()
+            return item.get_content() or ''
         spans = sel_re.findall(selection)
         parts = [plus if match == '+' else
                  comma if match == ',' else
-                 item.span(*map(int, match.split(':')))
+                 item.span(*map(int, match.split(':'))) or ''
                  for match in spans]
         return ''.join(parts)
-- 
2.43.0


From c5044c5405914f23e7b1bdb481df48b286e760b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:34 +0000
Subject: [PATCH 16/90] fix: query.ancestors stops at cycles of tiers with
 longer ids

---
 xigt/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/query.py b/xigt/query.py
index d25c540..0f83486 100644
--- a/xigt/query.py
+++ b/xigt/query.py
@@ -41,7 +41,7 @@ def ancestors(obj, refattrs=(ALIGNMENT, SEGMENTATION)):
         # cycle detection; break if we've now encountered something twice
         if reftier.id in visited:
             break
-        visited.update(reftier.id)
+        visited.add(reftier.id)
         tier = reftier
         items = refitems
 
-- 
2.43.0


From 8dccb6743ceceaabfb313b78f3034e9c281c3be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 17/90] fix: decode the type of an XML corpus

---
 xigt/codecs/xigtxml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index da41112..4f4b6d0 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -241,7 +241,8 @@ def default_decode_xigtcorpus(elem, igts=None, mode='full'):
     assert tag == 'xigt-corpus'
     return XigtCorpus(
         id=elem.get('id'),
-        attributes=get_attributes(elem, ignore=('id',)),
+        type=elem.get('type'),
+        attributes=get_attributes(elem, ignore=('id', 'type')),
         metadata=[decode_metadata(md) for md in elem.findall('metadata')],
         # NOTE: possible bug here; does nsiterparse run with elem.findall?
         igts=igts or [decode_igt(igt) for igt in elem.findall('igt')],
-- 
2.43.0


From 1919b80761475f841ab4d0968558ef87f46311dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 18/90] fix: keep id and type attributes of XML elements inside
 a meta

---
 xigt/codecs/xigtxml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 4f4b6d0..d987a35 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -341,7 +341,8 @@ def default_decode_metachild(elem):
     text = elem.text or ''
     mc = MetaChild(
         tag,
-        attributes=get_attributes(elem, ignore=('id', 'type')),
+        # unlike other elements, ids and types here are simple attributes
+        attributes=get_attributes(elem),
         text=text if text.strip() else None,
         children=[decode_metachild(mc) for mc in elem],
         namespace=ns,
-- 
2.43.0


From 3d1908d77d3e2a05a4149f087cec1c47eab42e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:36 +0000
Subject: [PATCH 19/90] fix: elements named igt inside a meta do not disturb
 reading XML

---
 xigt/codecs/xigtxml.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index d987a35..6cfd05f 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -201,9 +201,13 @@ def ns_iterparse(fh, events=('start', 'end')):
 def iter_elements(tag, events, root, break_on=None):
     if break_on is None:
         break_on = []
+    # only consider those directly below the root, as elements inside of
+    # metas can have any name; the first one has already been started
+    level = 1
     event, elem = next(events)
-    while (event, elem.tag) not in break_on:
-        if event == 'end' and elem.tag == tag:
+    while level > 0 or (event, elem.tag) not in break_on:
+        level += 1 if event == 'start' else -1
+        if event == 'end' and level == 0 and elem.tag == tag:
             yield elem
             root.clear()  # free memory after we're done with an element
         event, elem = next(events)
@@ -213,7 +217,11 @@ def default_decode(events, mode='full'):
     """Decode a XigtCorpus element."""
     event, elem = next(events)
     root = elem  # store root for later instantiation
-    while (event, elem.tag) not in [('start', 'igt'), ('end', 'xigt-corpus')]:
+    # ignore elements inside of metadata (the root is not counted)
+    level = -1
+    while (level > 0 or (event, elem.tag) not in
+           [('start', 'igt'), ('end', 'xigt-corpus')]):
+        level += 1 if event == 'start' else -1
         event, elem = next(events)
     igts = None
     if event == 'start' and elem.tag == 'igt':
-- 
2.43.0


From 9abc3cfda3d72d6a14e6e1d87705ae6fe8bcfd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 20/90] fix: declare the well-known namespaces that XML
 attributes fall back to

---
 xigt/codecs/xigtxml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 6cfd05f..767453f 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -390,6 +390,9 @@ def _build_elem(tag, obj, nscontext):
                     pre = revmap[uri]
                 except KeyError:
                     pre = _namespace_map[uri]
+                    if pre != 'xml':  # others need to be declared
+                        e.set(_QName('xmlns:%s' % pre,
+                                     sortkey=xigt_attrsort), uri)
                 attr = '{}:{}'.format(pre, attr)
             e.set(_QName(attr, sortkey=xigt_attrsort), val)
     return e
-- 
2.43.0


From d15605f78f69810cc2c70a5d728aeb68e22378a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 21/90] fix: JSON keeps empty texts and types

---
 xigt/codecs/xigtjson.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 557054f..f05f8d8 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -188,8 +188,8 @@ def _make_obj(x, nscontext=None):
     inv_nsmap.update((uri, pre) for pre, uri in active_nsmap.items())
     nsmap = dict(set(active_nsmap.items()).difference(nscontext.items()))
     obj = {}
-    if x.id: obj['id'] = x.id
-    if x.type: obj['type'] = x.type
+    if x.id is not None: obj['id'] = x.id
+    if x.type is not None: obj['type'] = x.type
     # might need to re-add prefixes to namespaced attribute keys
     if x.attributes:
         attrs = {}
@@ -253,6 +253,6 @@ def encode_tier(tier, nscontext=None):
 
 def encode_item(item, nscontext=None):
     obj, ns = _make_obj(item, nscontext)
-    if item.text: obj['text'] = item.text
+    if item.text is not None: obj['text'] = item.text
     return obj
 
-- 
2.43.0


From 4c3c11c40896a356eb6184c2f76e235319c22a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:46 +0000
Subject: [PATCH 22/90] fix: decode the type of a JSON corpus

---
 xigt/codecs/xigtjson.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index f05f8d8..9a992d4 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -61,6 +61,7 @@ def decode(obj, mode='full', nsmap=None):
     nsmap = active_namespaces(obj, nsmap)
     return XigtCorpus(
         id=obj.get('id'),
+        type=obj.get('type'),
         attributes=obj.get('attributes', {}),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
-- 
2.43.0


From ba70befb489c15ff1a89a36df7df5a89e1f7e51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:47 +0000
Subject: [PATCH 23/90] fix: JSON attributes in namespaces are restored

---
 xigt/codecs/xigtjson.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 9a992d4..4e63aba 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -62,7 +62,7 @@ def decode(obj, mode='full', nsmap=None):
     return XigtCorpus(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         igts=[decode_igt(igt, nsmap)
@@ -77,7 +77,7 @@ def decode_igt(obj, nsmap=None):
     igt = Igt(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         tiers=[decode_tier(tier, nsmap)
@@ -93,7 +93,7 @@ def decode_tier(obj, nsmap=None):
     tier = Tier(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         items=[decode_item(item, nsmap)
@@ -109,7 +109,7 @@ def decode_item(obj, nsmap=None):
     item = Item(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         namespace=obj.get('namespace'),
         nsmap=obj.get('namespaces')
@@ -122,7 +122,7 @@ def decode_metadata(obj, nsmap=None):
     metadata = Metadata(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         metas=[decode_meta(meta, nsmap)
                for meta in obj.get('metas', [])],
         namespace=obj.get('namespace'),
@@ -139,7 +139,7 @@ def decode_meta(obj, nsmap=None):
     meta = Meta(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
@@ -161,7 +161,7 @@ def decode_metachild(obj, nsmap=None):
             namespace = nsmap[namespace]
     mc = MetaChild(
         name,
-        attributes=obj.get('attributes', {}),
+        attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
@@ -171,6 +171,17 @@ def decode_metachild(obj, nsmap=None):
     return mc
 
 
+def decode_attributes(obj, nsmap):
+    # prefixes of attribute keys are for serialization only
+    attrs = {}
+    for k, v in obj.get('attributes', {}).items():
+        prefix, name = ns_split(k) if not k.startswith('{') else (None, k)
+        if prefix in nsmap:
+            k = '{%s}%s' % (nsmap[prefix], name)
+        attrs[k] = v
+    return attrs
+
+
 def active_namespaces(obj, nsmap):
     nsmap = {} if nsmap is None else dict(nsmap)
     nsmap.update(obj.get('namespaces', {}))
-- 
2.43.0


From 93ad4adb2f0db1258225380b19cc31ea1bfafb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:48 +0000
Subject: [PATCH 24/90] fix: JSON objects that declare namespaces keep those
 declared above

---
 xigt/codecs/xigtjson.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 4e63aba..341e3ee 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -69,7 +69,7 @@ def decode(obj, mode='full', nsmap=None):
               for igt in obj.get('igts', [])],
         mode=mode,
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
 
 def decode_igt(obj, nsmap=None):
@@ -83,7 +83,7 @@ def decode_igt(obj, nsmap=None):
         tiers=[decode_tier(tier, nsmap)
                for tier in obj.get('tiers', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return igt
 
@@ -99,7 +99,7 @@ def decode_tier(obj, nsmap=None):
         items=[decode_item(item, nsmap)
                for item in obj.get('items', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return tier
 
@@ -112,7 +112,7 @@ def decode_item(obj, nsmap=None):
         attributes=decode_attributes(obj, nsmap),
         text=obj.get('text'),
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return item
 
@@ -126,7 +126,7 @@ def decode_metadata(obj, nsmap=None):
         metas=[decode_meta(meta, nsmap)
                for meta in obj.get('metas', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return metadata
 
@@ -144,7 +144,7 @@ def decode_meta(obj, nsmap=None):
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return meta
 
@@ -166,7 +166,7 @@ def decode_metachild(obj, nsmap=None):
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
         namespace=namespace,
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return mc
 
-- 
2.43.0


From 8e8ea948451f7bafb398fc89bb8c12c730e60be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:53 +0000
Subject: [PATCH 25/90] fix: XigtPath names may contain dots and begin with the
 name of a function

---
 xigt/xigtpath.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 020c73b..d99f3bf 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -40,8 +40,9 @@ xp_tokenizer_re = re.compile(
     r'\(|\)|'  # groups
     r'\||'  # union
     r'!=|=|'  # comparisons
-    r'(?:text|value|referent|referrer)|'
-    r'\*|[^.\/\[\]!=|()]+'  # .., *, igt, tier, item, etc.
+    r',|'  # argument separator
+    r'(?:text|value|referent|referrer)(?=\s*\()|'  # functions
+    r'\*|[^\s.,"\/\[\]!=|()][^,"\/\[\]!=|()]*'  # *, igt, tier, item, etc.
 )
 
 def tokenize(path):
@@ -125,7 +126,8 @@ def _step(objs, steps):
             results = objs
         # elif steps and steps[0] == '::':
 
-        elif step in ('text', 'value', 'referent', 'referrer'):
+        elif (step in ('text', 'value', 'referent', 'referrer')
+              and steps and steps[0] == '('):
             steps.popleft()  # (
             args = []
             while steps and steps[0] != ')':
-- 
2.43.0


From be05457bb8b4c9c22e1a92280c0b59e3e8174738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:53 +0000
Subject: [PATCH 26/90] fix: XigtPath predicates without a comparison test for
 existence

---
 xigt/xigtpath.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index d99f3bf..7470a7d 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -255,7 +255,9 @@ def _make_predicate_test(steps):
         subpath.append(steps.popleft())
     subpath = ''.join(subpath)  # ugly hack so findall() works
     if steps[0] == ']':
-        predtest = lambda obj: any(bool(findall(obj, subpath)))
+        # absent attributes and texts are None
+        predtest = lambda obj: any(v is not None
+                                   for v in findall(obj, subpath))
     elif steps[0] in ('=', '!='):
         cmp = steps.popleft()
         val = steps.popleft().strip('"')
-- 
2.43.0


From b36f6bc8809adc0cb9a701a26b33c5b9a7554b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:53 +0000
Subject: [PATCH 27/90] fix: XigtPath predicates may be nested

---
 xigt/xigtpath.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 7470a7d..d11810c 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -251,7 +251,10 @@ def _make_predicate_test(steps):
     steps.popleft()  # '['
     # parse expr here?
     subpath = deque()
-    while steps[0] not in (']', '=', '!='):
+    depth = 0  # of nested predicates
+    while depth > 0 or steps[0] not in (']', '=', '!='):
+        if steps[0] in ('[', ']'):
+            depth += 1 if steps[0] == '[' else -1
         subpath.append(steps.popleft())
     subpath = ''.join(subpath)  # ugly hack so findall() works
     if steps[0] == ']':
-- 
2.43.0


From 2a7019c461ee6cb38b0f1536982fe13d06caff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:53 +0000
Subject: [PATCH 28/90] fix: XigtPath strings may contain escaped quotes

---
 xigt/xigtpath.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index d11810c..fd23e1a 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -45,6 +45,11 @@ xp_tokenizer_re = re.compile(
     r'\*|[^\s.,"\/\[\]!=|()][^,"\/\[\]!=|()]*'  # *, igt, tier, item, etc.
 )
 
+def _unquote(token):
+    if token.startswith('"'):
+        token = re.sub(r'\\(.)', r'\1', token[1:-1], flags=re.DOTALL)
+    return token
+
 def tokenize(path):
     return [t.strip() for t in xp_tokenizer_re.findall(path) if t.strip()]
 
@@ -157,7 +162,7 @@ def _function(obj, func, args):
         find_refs = _find_referent if func == 'referent' else _find_referrer
         refattrs = None
         if args:
-            refattrs = [ra.strip('"') for ra in args if ra != ',']
+            refattrs = [_unquote(ra) for ra in args if ra != ',']
         results = find_refs(obj, refattrs)
     for result in results:
         yield result
@@ -263,7 +268,7 @@ def _make_predicate_test(steps):
                                    for v in findall(obj, subpath))
     elif steps[0] in ('=', '!='):
         cmp = steps.popleft()
-        val = steps.popleft().strip('"')
+        val = _unquote(steps.popleft())
         if cmp == '=':
             predtest = lambda obj: any(v==val for v in findall(obj, subpath))
         elif cmp == '!=':
-- 
2.43.0


From 7bbfe677a2f76d2131dbb12aa73d7f5c63f49a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:53 +0000
Subject: [PATCH 29/90] fix: the XigtPath parent of an object without one is
 nothing

---
 xigt/xigtpath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index fd23e1a..cc5e13a 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -126,7 +126,8 @@ def _step(objs, steps):
             attr = steps.popleft()
             results = (res for obj in objs for res in _find_attr(obj, attr))
         elif step == '..':
-            results = (obj._parent for obj in objs)
+            results = (obj._parent for obj in objs
+                       if getattr(obj, '_parent', None) is not None)
         elif step == '.':
             results = objs
         # elif steps and steps[0] == '::':
-- 
2.43.0


From 3f90b1d798513aed4f0daf4d24175572b7fe8445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:53 +0000
Subject: [PATCH 30/90] fix: namespaces in XigtPath steps select by the
 declared namespace, on every axis

---
 xigt/xigtpath.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index cc5e13a..ee62c88 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -177,7 +177,8 @@ def _find_child(obj, name):
         kwargs['namespace'] = namespace
     # simple case
     if name == '*' and hasattr(obj, '__iter__'):
-        results = list(getattr(obj, 'metadata', []))
+        if hasattr(obj, 'metadata'):
+            results.extend(obj.metadata.select(**kwargs))
         results.extend(obj.select(**kwargs))
     elif (name == 'igt' and hasattr(obj, 'igts') or
           name == 'tier' and hasattr(obj, 'tiers') or
@@ -186,15 +187,7 @@ def _find_child(obj, name):
         # select should just work on the containers as normal
         results = obj.select(**kwargs)
     elif name == 'metadata' and hasattr(obj, 'metadata'):
-        # for metadata we need to filter by namespace ourselves (but
-        # we don't really expect for <metadata> elements to have a
-        # namespace, so maybe this is unnecessary?)
-        results = iter(obj.metadata)
-        if 'namespace' in kwargs:
-            results = filter(
-                lambda x: getattr(x, 'namespace', None) == namespace,
-                results
-            )
+        results = obj.metadata.select(**kwargs)
     elif isinstance(obj, (Meta, MetaChild)):
         # for MetaChild objects, we need to give the name as well
         kwargs['name'] = name
@@ -214,22 +207,27 @@ def _find_attr(obj, attr):
         if ':' in attr:
             namespace, attr = attr.split(':', 1)
         if attr == '*':
-            vals.extend(obj.get_attribute(attrkey, namespace=namespace)
-                        for attrkey in obj.attributes)
+            # attribute keys are already qualified
+            if namespace is not None:
+                start = '{%s}' % obj.nsmap.get(namespace, namespace)
+            vals.extend(val for key, val in obj.attributes.items()
+                        if namespace is None or key.startswith(start))
         else:
             vals.append(obj.get_attribute(attr, namespace=namespace))
     for val in vals:
         yield val
 
 def _find_descendant_or_self(obj, name):
-    namespace = None
+    namespace, localname = None, name
     if ':' in name:
-        namespace, name = name.split(':', 1)
+        namespace, localname = name.split(':', 1)
+        namespace = obj.nsmap.get(namespace, namespace)
     if isinstance(obj, MetaChild):
         objname = obj.name
     else:
         objname = obj.__class__.__name__.lower()
-    if (namespace is None or obj.namespace == namespace) and objname == name:
+    if ((namespace is None or obj.namespace == namespace)
+            and localname in (objname, '*')):
         yield obj
     for child in _find_child(obj, '*'):
         for desc in _find_descendant_or_self(child, name):
-- 
2.43.0


From b64d6cea6a17ea56c7b97f60ad0b022599634d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:53 +0000
Subject: [PATCH 31/90] fix: the id and type attributes of meta children are
 found by XigtPath

---
 xigt/xigtpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index ee62c88..317a01b 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -200,6 +200,8 @@ def _find_attr(obj, attr):
     # pseudo-attributes (members in the model, attrs in the xml and path)
     if attr in ('type', 'id', 'name'):
         val = getattr(obj, attr, None)
+        if val is None:
+            val = obj.attributes.get(attr)
         if val is not None:
             vals.append(val)
     else:
-- 
2.43.0


From b99be6a5ecaae8d0d9eb92a48cb0348dd16d6182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:53 +0000
Subject: [PATCH 32/90] fix: XigtPath groups after steps without results are
 skipped as a whole

---
 xigt/xigtpath.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 317a01b..21f1aa8 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -93,6 +93,12 @@ def _disjunction(objs, steps):
     # NOTE: on the first pass, steps is the original deque, so it is
     #       modified in-place. Afterwards, the copy is reused.
     orig_steps = deque(steps)
+    objs = list(objs)
+    if not objs:
+        # nothing to evaluate; skip the alternatives
+        depth = 1
+        while depth > 0:
+            depth += {'(': 1, ')': -1}.get(steps.popleft(), 0)
     for obj in objs:
         while True:
             results.extend(r for r in _expr([obj], steps))
-- 
2.43.0


From 4cc2521a4c35791456cdb0177ce940959b4408a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:53 +0000
Subject: [PATCH 33/90] fix: XigtPath steps after a group at the start of a
 path are followed

---
 xigt/xigtpath.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 21f1aa8..d884f16 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -76,10 +76,7 @@ def iterfind(obj, path):
         yield result
 
 def _expr(objs, steps):
-    if steps[0] == '(':
-        steps.popleft()
-        results = _disjunction(objs, steps)
-    elif steps[0] in ('/', '//'):
+    if steps[0] in ('/', '//'):
         if steps[0] == '/':
             steps.popleft()
         results = _step([_get_corpus(objs[0])], steps)
-- 
2.43.0


From ab9aae1eb0573dfb6bbf4651cf6ec4ae35828175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:53 +0000
Subject: [PATCH 34/90] fix: XigtPath text() and value() of objects without
 texts or values are empty

---
 xigt/xigtpath.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index d884f16..4cfbd50 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -3,7 +3,7 @@ import re
 from collections import namedtuple, deque
 from itertools import chain
 
-from xigt import (XigtCorpus, Meta, MetaChild, ref)
+from xigt import (XigtCorpus, Item, Meta, MetaChild, ref)
 from xigt.errors import XigtError
 
 # XigtPath Grammar
@@ -158,10 +158,15 @@ def _step(objs, steps):
 
 def _function(obj, func, args):
     # function children
+    results = []
     if func == 'text':
-        results = [obj.text]  # ignore args?
+        # ignore args?
+        if isinstance(obj, (Item, Meta, MetaChild)):
+            results = [obj.text]
     elif func == 'value':
-        results = [obj.value()]  # ignore args?
+        # ignore args?
+        if isinstance(obj, Item):
+            results = [obj.value()]
     elif func in ('referent', 'referrer'):
         find_refs = _find_referent if func == 'referent' else _find_referrer
         refattrs = None
-- 
2.43.0


From 90c254041e65ea767e01f6237db2c904338e3af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:53 +0000
Subject: [PATCH 35/90] fix: XigtPath referents and referrers leave out missing
 objects

---
 xigt/xigtpath.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 4cfbd50..8a79d6e 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -246,14 +246,23 @@ def _find_descendant_or_self(obj, name):
 def _find_referent(obj, refattrs):
     refs = []
     igt = obj.igt if hasattr(obj, 'igt') else obj
-    refd = ref.referents(igt, obj.id, refattrs=refattrs)
+    if obj.id is None:
+        # it cannot be looked up, but its references can
+        if refattrs is None:
+            refattrs = obj.allowed_reference_attributes()
+        refd = {ra: ref.ids(obj.attributes.get(ra, '')) for ra in refattrs}
+    else:
+        refd = ref.referents(igt, obj.id, refattrs=refattrs)
     # sort for now because ref.referents doesn't return document order
     for ra, ids in sorted(refd.items()):
         refs.extend(igt.get_any(_id) for _id in ids)
-    return refs
+    # references may be dangling
+    return [obj for obj in refs if obj is not None]
 
 def _find_referrer(obj, refattrs):
     refs = []
+    if obj.id is None:
+        return refs  # nothing can refer to it
     igt = obj.igt if hasattr(obj, 'igt') else obj
     refd = ref.referrers(igt, obj.id, refattrs=refattrs)
     # sort for now because ref.referents doesn't return document order
-- 
2.43.0


From 41f60a2b6debf697ee060d2b7fa429e12ae55c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:04 +0000
Subject: [PATCH 36/90] fix: sort compares key by key

---
 xigt/scripts/xigt_sort.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xigt/scripts/xigt_sort.py b/xigt/scripts/xigt_sort.py
index 21e20bb..df15962 100644
--- a/xigt/scripts/xigt_sort.py
+++ b/xigt/scripts/xigt_sort.py
@@ -39,9 +39,10 @@ def make_sortkey(sortkeys):
             return int(x)
         except ValueError:
             return x
-    key = lambda x: [k for sk in sortkeys
-                     for k in map(safe_int,
-                                  re.split(r'(\d+)', xp.find(x, sk) or ''))]
+    # (a list per key, so only the parts of the same key are compared)
+    key = lambda x: [list(map(safe_int,
+                              re.split(r'(\d+)', xp.find(x, sk) or '')))
+                     for sk in sortkeys]
     return key
 
 def main(arglist=None):
-- 
2.43.0


From 6ca58a6ec4495b694cb458a390288a0a22a5f0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:04 +0000
Subject: [PATCH 37/90] fix: partition joins the groups whose keys give the
 same file name

---
 xigt/scripts/xigt_partition.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/xigt/scripts/xigt_partition.py b/xigt/scripts/xigt_partition.py
index 9b4511f..791b386 100644
--- a/xigt/scripts/xigt_partition.py
+++ b/xigt/scripts/xigt_partition.py
@@ -13,18 +13,16 @@ def run(args):
     logging.debug('Partitioning with path \'{}\''.format(args.key_path))
     logging.debug('Writing to {}'.format(args.outdir))
     create_outdir(args.outdir)
-    idx = defaultdict(lambda: defaultdict(set))  # key : filename : igt-index
+    # output filename : filename : igt-index
+    idx = defaultdict(lambda: defaultdict(set))
     keypath = args.key_path
     for fn in args.infiles:
         logging.info('Indexing {}'.format(fn))
-        index(fn, keypath, idx)
-    for key, fn_idx in idx.items():
+        index(fn, keypath, idx, args.default_key)
+    for name, fn_idx in idx.items():
         logging.info('Writing {} (grouped from {} files)'
-                     .format(key, len(fn_idx)))
-        if key is None:
-            key = args.default_key
-        out_fn = os.path.join(args.outdir, normalize_key(key) + '.xml')
-        write(out_fn, fn_idx)
+                     .format(name, len(fn_idx)))
+        write(os.path.join(args.outdir, name), fn_idx)
 
 def create_outdir(outdir):
     if os.path.isdir(outdir):
@@ -36,11 +34,14 @@ def create_outdir(outdir):
         logging.error('Output directory could not be created.')
         sys.exit(1)
 
-def index(fn, by, idx):
+def index(fn, by, idx, default_key):
     xc = xigtxml.load(fn, mode='transient')
     for i, igt in enumerate(xc):
         idx_key = xp.find(igt, by)
-        idx[idx_key][fn].add(i)
+        if idx_key is None:
+            idx_key = default_key
+        # different keys may be normalized to the same name
+        idx[normalize_key(idx_key) + '.xml'][fn].add(i)
 
 def normalize_key(key):
     return key.replace(':', '-')
-- 
2.43.0


From f5c94669cd147b68613632fcadac8947dc09a0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:04 +0000
Subject: [PATCH 38/90] fix: partition writes only into its output directory

---
 xigt/scripts/xigt_partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/scripts/xigt_partition.py b/xigt/scripts/xigt_partition.py
index 791b386..a9215ce 100644
--- a/xigt/scripts/xigt_partition.py
+++ b/xigt/scripts/xigt_partition.py
@@ -44,7 +44,7 @@ def index(fn, by, idx, default_key):
         idx[normalize_key(idx_key) + '.xml'][fn].add(i)
 
 def normalize_key(key):
-    return key.replace(':', '-')
+    return key.replace(':', '-').replace('/', '-')
 
 def write(out_fn, fn_idx):
     xc = XigtCorpus()
-- 
2.43.0


From f0ff3d7d743e8976d25c6523cb42ab08a8372321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:04 +0000
Subject: [PATCH 39/90] fix: query texts may contain braces

---
 xigt/scripts/xigt_query.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/xigt/scripts/xigt_query.py b/xigt/scripts/xigt_query.py
index 8235ebb..c4877ad 100755
--- a/xigt/scripts/xigt_query.py
+++ b/xigt/scripts/xigt_query.py
@@ -72,10 +72,7 @@ def make_job(args):
     agenda = job['agenda']
     for action, vals in args.agenda:
         if action == 'description' and agenda:
-            agendum = agenda[-1]
-            agendum['description'] = safe_format(
-                vals, query=agendum['query'], subquery=agendum.get('subquery')
-            )
+            agenda[-1]['description'] = vals
         else:
             if action in ('find', 'unique', 'count'):
                 query, subquery = vals[0], ''
@@ -87,9 +84,7 @@ def make_job(args):
                 'action': action,
                 'query': query,
                 'subquery': subquery,
-                'description': safe_format(
-                    description, query=query, subquery=subquery
-                )
+                'description': description
             })
     return job
 
@@ -110,9 +105,17 @@ def process_agenda(xc, agenda):
     return results
 
 
+def describe(agendum, match):
+    # format everything at once, so braces in the queries are left alone
+    return safe_format(
+        agendum['description'],
+        query=agendum['query'], subquery=agendum['subquery'], match=match
+    )
+
+
 def find_pattern(xc, agendum):
     for match in xp.findall(xc, agendum['query']):
-        print(' ', agendum['description'].format(match=match))
+        print(' ', describe(agendum, match))
 
 
 def tally_pattern(xc, agendum):
@@ -121,19 +124,19 @@ def tally_pattern(xc, agendum):
         group = CSTuple(xp.findall(match, agendum['subquery']))
         counts[group] += 1
     return [
-        (count, agendum['description'].format(match=match))
+        (count, describe(agendum, match))
         for match, count in counts.most_common()
     ]
 
 
 def unique_pattern(xc, agendum):
     counts = Counter(xp.findall(xc, agendum['query']))
-    return (len(counts), agendum['description'].format(match=''))
+    return (len(counts), describe(agendum, ''))
 
 
 def count_pattern(xc, agendum):
     count = len(xp.findall(xc, agendum['query']))
-    return (count, agendum['description'].format(match=''))
+    return (count, describe(agendum, ''))
 
 
 def print_results(results):
-- 
2.43.0


From ebc5448450626217df9cc9ef835e9639583370ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:04 +0000
Subject: [PATCH 40/90] fix: query counts objects as well as strings

---
 xigt/scripts/xigt_query.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/xigt/scripts/xigt_query.py b/xigt/scripts/xigt_query.py
index c4877ad..4bf945a 100755
--- a/xigt/scripts/xigt_query.py
+++ b/xigt/scripts/xigt_query.py
@@ -118,19 +118,27 @@ def find_pattern(xc, agendum):
         print(' ', describe(agendum, match))
 
 
+def match_key(match):
+    # objects are not hashable, and each is a match of its own
+    return match if isinstance(match, str) else id(match)
+
+
 def tally_pattern(xc, agendum):
     counts = Counter()
+    groups = {}
     for match in xp.findall(xc, agendum['query']):
         group = CSTuple(xp.findall(match, agendum['subquery']))
-        counts[group] += 1
+        key = tuple(map(match_key, group))
+        groups.setdefault(key, group)
+        counts[key] += 1
     return [
-        (count, describe(agendum, match))
-        for match, count in counts.most_common()
+        (count, describe(agendum, groups[key]))
+        for key, count in counts.most_common()
     ]
 
 
 def unique_pattern(xc, agendum):
-    counts = Counter(xp.findall(xc, agendum['query']))
+    counts = Counter(map(match_key, xp.findall(xc, agendum['query'])))
     return (len(counts), describe(agendum, ''))
 
 
-- 
2.43.0


From bce9d11e91e12eebed4bdb39e00d76ef56f0cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:04 +0000
Subject: [PATCH 41/90] fix: query without actions

---
 xigt/scripts/xigt_query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/scripts/xigt_query.py b/xigt/scripts/xigt_query.py
index 4bf945a..be4f002 100755
--- a/xigt/scripts/xigt_query.py
+++ b/xigt/scripts/xigt_query.py
@@ -70,7 +70,7 @@ def make_job(args):
         job['file_description'] = '{filename}:'
 
     agenda = job['agenda']
-    for action, vals in args.agenda:
+    for action, vals in getattr(args, 'agenda', []):
         if action == 'description' and agenda:
             agenda[-1]['description'] = vals
         else:
-- 
2.43.0


From ae88745373efd69ad5add81cf5a9f877b5281f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:04 +0000
Subject: [PATCH 42/90] fix: validate checks references to empty tiers

---
 xigt/scripts/xigt_validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 4d4be94..8f8a11f 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -239,7 +239,7 @@ def item_refattrs_specified_on_tier(tier):
 def algnexpr_ids_in_referred_tier(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     missing = []
     for ae_id in ids(itemref):
-- 
2.43.0


From d115a9d9c6964207bc68e1ae5647475d83644eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:04 +0000
Subject: [PATCH 43/90] fix: validate spans of references that are lists of ids

---
 xigt/scripts/xigt_validate.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 8f8a11f..295f072 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -259,9 +259,7 @@ def algnexpr_spans_in_aligned_item(item, refattr):
     if not itemref or not reftier:
         return
     error_spans = []
-    for span in spans(itemref):
-        if span in alignment_expression_delimiters:
-            continue  # schema validator should catch bad algnexprs like '+w3'
+    for span in spans(itemref, keep_delimiters=False):
         sel_delim, item_id, _range = selection_re.match(span).groups()
         if _range:
             _, start, end = span_re.match(_range).groups()
-- 
2.43.0


From 73bfaf3816ac35e94a2b6b7754e25c5f8b424700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:04 +0000
Subject: [PATCH 44/90] fix: validate spans of items without a value

---
 xigt/scripts/xigt_validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 295f072..2fb08c0 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -270,7 +270,7 @@ def algnexpr_spans_in_aligned_item(item, refattr):
         tgt_item = reftier.get(item_id)
         if tgt_item is None:
             continue  # this should be caught by algnexpr_ids_in_referred_tier
-        item_len = len(tgt_item.value())
+        item_len = len(tgt_item.value() or '')
         if start > item_len or end > item_len:
             error_spans.append(span)
     if error_spans:
-- 
2.43.0


From 08f6c653b69d1bc1bdedfdabc3ad3becfff6c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:04 +0000
Subject: [PATCH 45/90] fix: validate finds overlapping spans

---
 xigt/scripts/xigt_validate.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 2fb08c0..897f60c 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -286,21 +286,19 @@ def algnexpr_spans_do_not_overlap(item, refattr):
     if not itemref or not reftier:
         return
     spans_by_id = defaultdict(Counter)
-    for span in spans(itemref):
-        if span in alignment_expression_delimiters:
-            continue  # schema validator should catch bad algnexprs like '+w3'
-        if isinstance(span, str):
-            tgt_item = reftier.get(span)
-            if tgt_item is None:
-                continue  # this should be caught by algnexpr_ids_in_referred_tier
-            val = tgt_item.value()
-            if val is None:
-                continue  # does this need to be handled?
-            item_len = len(tgt_item.value())
-            spans_by_id[span].update(range(0, item_len))
-        else:
-            item_id, start, end = span
-            spans_by_id[item_id].update(range(start, end))
+    for span in spans(itemref, keep_delimiters=False):
+        sel_delim, item_id, _range = selection_re.match(span).groups()
+        tgt_item = reftier.get(item_id)
+        if tgt_item is None:
+            continue  # this should be caught by algnexpr_ids_in_referred_tier
+        val = tgt_item.value()
+        if val is None:
+            continue  # does this need to be handled?
+        positions = range(len(val))
+        if _range:
+            _, start, end = span_re.match(_range).groups()
+            positions = positions[int(start):int(end)]
+        spans_by_id[item_id].update(positions)
     error_spans = [
         item_id for item_id, count in spans_by_id.items()
         if any(count[c] > 1 for c in count)
-- 
2.43.0


From 9c7fb870b6fce3185092d8c8d675d9ea02978c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:04 +0000
Subject: [PATCH 46/90] fix: validate fails if a corpus cannot be loaded

---
 xigt/scripts/xigt_validate.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 897f60c..ce01932 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -9,7 +9,7 @@ warnings.simplefilter('ignore')
 
 from xigt.codecs import xigtxml
 from xigt.ref import (ids, spans, selection_re, span_re)
-from xigt.errors import XigtAttributeError
+from xigt.errors import XigtError
 
 datalevels = ['corpus', 'igt', 'tier', 'item']
 reference_attributes = ['alignment', 'segmentation', 'content']
@@ -390,16 +390,18 @@ def run(args):
         with open(f, 'r') as fh:
             try:
                 xc = xigtxml.load(fh, mode='transient')
-            except ET.ParseError:
+                context = make_context(
+                    xc, i, '<xigt-corpus>', 'collection', ids=ids
+                )
+                # the igts are loaded here
+                report = validate_corpus(xc, context)
+            except (ET.ParseError, XigtError):
+                passed.append(False)
                 print('Corpus {} ({}) failed to load. First verify '
                       'that the XML file is valid by doing a schema '
                       'validation.'
                       .format(i, f))
             else:
-                context = make_context(
-                    xc, i, '<xigt-corpus>', 'collection', ids=ids
-                )
-                report = validate_corpus(xc, context)
                 report = filter_empty_reports(
                     report, minlevel=logging.getLogger().getEffectiveLevel()
                 )
-- 
2.43.0


From c54bbabf1436ff6871a740cccd3b75c11d2c8b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:34 +0000
Subject: [PATCH 47/90] fix: XigtPath attributes that are absent give nothing

---
 xigt/xigtpath.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 8a79d6e..3ea2539 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -223,7 +223,9 @@ def _find_attr(obj, attr):
             vals.extend(val for key, val in obj.attributes.items()
                         if namespace is None or key.startswith(start))
         else:
-            vals.append(obj.get_attribute(attr, namespace=namespace))
+            val = obj.get_attribute(attr, namespace=namespace)
+            if val is not None:
+                vals.append(val)
     for val in vals:
         yield val
 
-- 
2.43.0


From 140889a0df0d761d68b5f2be13cff8d135949367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:11 +0000
Subject: [PATCH 48/90] fix: LaTeX commands for characters end before the next
 character

---
 xigt/exporters/latex.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 3190491..5a98209 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -12,9 +12,8 @@ from xigt import ref
 from xigt.exporters.util import sub
 
 DEFAULT_TIER_TYPES = ('words', 'morphemes', 'glosses')
-# order matters here
 LATEX_CHARMAP = [
-    ('\\', '\\textbackslash'),
+    ('\\', '\\textbackslash{}'),
     ('&', '\\&'),
     ('%', '\\%'),
     ('$', '\\$'),
@@ -22,8 +21,8 @@ LATEX_CHARMAP = [
     ('_', '\\_'),
     ('{', '\\{'),
     ('}', '\\}'),
-    ('~', '\\textasciitilde'),
-    ('^', '\\textasciicircum'),
+    ('~', '\\textasciitilde{}'),
+    ('^', '\\textasciicircum{}'),
 ]
 
 header = '''
@@ -59,9 +58,8 @@ def escape(s):
     # _unescape_func = lambda m: _character_unescapes[m.group(0)]
     # _unescape_re = re.compile(r'(\\s|\\n|\\\\)')
     # _unescape_re.sub(_unescape_func, string, re.UNICODE)
-    for c, r in LATEX_CHARMAP:
-        s = s.replace(c, r)
-    return s
+    charmap = dict(LATEX_CHARMAP)
+    return ''.join(charmap.get(c, c) for c in s)
 
 def export_corpus(xc, config):
     for igt in xc:
-- 
2.43.0


From 63578cb63c3755e88506c5dd20b4907d7809a22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:11 +0000
Subject: [PATCH 49/90] fix: LaTeX placeholders of empty items are empty groups

---
 xigt/exporters/latex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 5a98209..77c08e8 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -93,7 +93,7 @@ def export_igt(igt, config):
             items = col[i]
             toks.append('{{{}}}'.format(
                 ' '.join(
-                    sub(escape(item.get_content() or '{}'),
+                    sub(escape(item.get_content() or '') or '{}',
                         tier_type,
                         item_subs)
                     for item in items
@@ -104,7 +104,7 @@ def export_igt(igt, config):
     for tier in igt.tiers:
         if tier.type == 'translations' and len(tier) > 0:
             lines.append('\\trans {}'.format(
-                sub(escape(tier[0].get_content() or '{}'),
+                sub(escape(tier[0].get_content() or '') or '{}',
                     tier.type,
                     tier_subs)
             ))
-- 
2.43.0


From f189203860658e4968d4d9fe6834b1ac467c24eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:11 +0000
Subject: [PATCH 50/90] fix: LaTeX export of items without references

---
 xigt/exporters/latex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 77c08e8..2809520 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -184,7 +184,8 @@ def align_tier(trellis, tier):
     return trellis
 
 def get_agenda(tier):
-    agenda = [(ref.ids(item.alignment or item.segmentation), item)
+    agenda = [(ref.ids(item.alignment or item.segmentation or ''),
+               item)
               for item in tier.items]
     # then group those with the same alignment (still a list [(ids, item)])
     agenda = deque(tuple([k, [g[1] for g in gs]])
-- 
2.43.0


From 1a9040b6c9e157cc488b18ab8b2aedc4baac3cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:11 +0000
Subject: [PATCH 51/90] fix: LaTeX export of tiers and items without ids

---
 xigt/exporters/latex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 2809520..8871661 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -78,7 +78,7 @@ def export_igt(igt, config):
             tiers.append(tier)
     if len(tiers) < 2:
         return '%\n% cannot export IGT {}\n%'.format(igt.id)
-    logging.debug('Aligning tiers: {}'.format(', '.join(t.id for t in tiers)))
+    logging.debug('Aligning tiers: {}'.format(', '.join(str(t.id) for t in tiers)))
     lines = []
     all_groups = group_alignments(tiers)
     for col in all_groups:
@@ -224,7 +224,7 @@ def merge_columns(trellis, start, end):
 def debug_display_trellis(trellis):
     strs = []
     for col in trellis:
-        toks = [' '.join(i.id for i in row) if row else '[]' for row in col]
+        toks = [' '.join(str(i.id) for i in row) if row else '[]' for row in col]
         maxlen = max(len(t) for t in toks)
         toks = [t.ljust(maxlen) for t in toks]
         strs.append(toks)
-- 
2.43.0


From 676fce100a58140b820b8d36f56854d5aaf97749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:11 +0000
Subject: [PATCH 52/90] fix: LaTeX export of IGTs whose first tier is empty

---
 xigt/exporters/latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 8871661..03ecb13 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -76,7 +76,7 @@ def export_igt(igt, config):
         typ = tier.type
         if typ is not None and typ.lower() in tier_types:
             tiers.append(tier)
-    if len(tiers) < 2:
+    if len(tiers) < 2 or len(tiers[0]) == 0:
         return '%\n% cannot export IGT {}\n%'.format(igt.id)
     logging.debug('Aligning tiers: {}'.format(', '.join(str(t.id) for t in tiers)))
     lines = []
-- 
2.43.0


From c20996a5c7b664dc7bdb50b9d4b2a76e78b013f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:11 +0000
Subject: [PATCH 53/90] fix: LaTeX export of items aligned to any of the tiers
 above, in any order

---
 xigt/exporters/latex.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 03ecb13..f36affa 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -136,14 +136,14 @@ def align_tier(trellis, tier):
         ids, items = agendum
         logging.debug('Agendum: {} -> {}'.format([i.id for i in items], ids))
         debug_display_trellis(trellis)
+        positions = [idxmap[id_] for id_ in ids if id_ in idxmap]
         # no alignment
-        if not ids:
+        if not positions:
             logging.debug('Delay')
             delay.append(agendum)
             continue
-        # assumes ids are ordered
-        start = idxmap[ids[0]]
-        end = idxmap[ids[-1]]
+        start = min(positions)
+        end = max(positions)
         logging.debug('idx: {}\tstart: {}\tend: {}\tdepth: {}'
                       .format(idx, start, end, depth))
         # if the next aligned thing is ahead of idx, move ahead
@@ -164,12 +164,12 @@ def align_tier(trellis, tier):
             # end + 1 so the slice gets the last column
             trellis = merge_columns(trellis, start, end + 1)
             idxmap = build_idxmap(trellis, depth - 1)
+            idx = start if idx <= end else idx - (end - start)
             debug_display_trellis(trellis)
-        #trellis[idx]
-        #trellis[idx][depth]
-        trellis[idx][depth].extend(items)
+        # (idx is ahead of start if the alignments cross)
+        trellis[start][depth].extend(items)
         logging.debug('Added items at idx {} depth {}: {}'
-                      .format(idx, depth, items))
+                      .format(start, depth, items))
     # when agendum is done, just append any remaining delayed items
     trellis, _ = add_delayed(trellis, delay, len(trellis), depth)
     # if the agenda was shorter than the prev tier, fill in empty values
@@ -193,7 +193,9 @@ def get_agenda(tier):
     return agenda
 
 def build_idxmap(trellis, depth):
-    idxmap = {it.id:i for i, col in enumerate(trellis) for it in col[depth]}
+    # items may be aligned to any row up to depth
+    idxmap = {it.id:i for row in range(depth + 1)
+              for i, col in enumerate(trellis) for it in col[row]}
     logging.debug('Built idxmap for depth {}:\n  {}'.format(depth, idxmap))
     return idxmap
 
-- 
2.43.0


From 1c0b27cc2336d7aaf3bea940290e35fe78d6057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:10 +0000
Subject: [PATCH 54/90] fix: LaTeX columns of trailing unaligned items have one
 row for each tier

---
 xigt/exporters/latex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index f36affa..db472a2 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -170,14 +170,14 @@ def align_tier(trellis, tier):
         trellis[start][depth].extend(items)
         logging.debug('Added items at idx {} depth {}: {}'
                       .format(start, depth, items))
-    # when agendum is done, just append any remaining delayed items
-    trellis, _ = add_delayed(trellis, delay, len(trellis), depth)
     # if the agenda was shorter than the prev tier, fill in empty values
     idx += 1
     while idx < len(trellis):
         logging.debug('Filling in empty slot at idx {}'.format(idx))
         trellis[idx].append([])
         idx += 1
+    # when agendum is done, just append any remaining delayed items
+    trellis, _ = add_delayed(trellis, delay, len(trellis), depth)
     logging.debug('Agenda done.')
     for col in trellis:
         logging.debug('Col {}'.format(col))
-- 
2.43.0


From ae76d10d60594bfac0e32f49d2c99a70f44d59a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:39 +0000
Subject: [PATCH 55/90] fix: each [incr tsdb()] cell is made by its own
 expression

---
 xigt/exporters/itsdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/exporters/itsdb.py b/xigt/exporters/itsdb.py
index 38258e7..fc59602 100644
--- a/xigt/exporters/itsdb.py
+++ b/xigt/exporters/itsdb.py
@@ -48,7 +48,7 @@ def prepare_config(config):
             config['relations'] = rel_path
     # evaluate lambda expressions now, since they won't change
     config.setdefault('cells', DEFAULT_CELLS)
-    config['cells'] = [(key, lambda igt: eval(mapper))
+    config['cells'] = [(key, lambda igt, mapper=mapper: eval(mapper))
                        for key, mapper in config['cells']]
     return config
 
-- 
2.43.0


From cf2a7941f65e4fa10264c77ec1be7424d22688c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:39 +0000
Subject: [PATCH 56/90] fix: the default i-input cell is a string

---
 xigt/exporters/itsdb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/exporters/itsdb.py b/xigt/exporters/itsdb.py
index fc59602..968f3c8 100644
--- a/xigt/exporters/itsdb.py
+++ b/xigt/exporters/itsdb.py
@@ -14,8 +14,9 @@ except ImportError:
 DEFAULT_CELLS = [
     # i-input is a string of either the first phrase (preferred) or all words
     ('i-input',
-     'next(igt.select(type="phrases"), [""])[0] or '
-     '" ".join(item.get_content() '
+     'next((item.value() for tier in igt.select(type="phrases") '
+     '      for item in tier), "") or '
+     '" ".join(item.value() or "" '
      '         for item in next(igt.select(type="words"),[]))'),
     #('i-wf', '0 if igt.get_meta("judgment") else 1'),
 ]
-- 
2.43.0


From 4e545eb300cce9ea88c06c7770f8aa1036c09f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:09 +0000
Subject: [PATCH 57/90] fix: a single morpheme segments to the full word

---
 xigt/importers/toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index f8d4290..3b78540 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -308,7 +308,7 @@ def align_word(tier_type, s, src_data):
         end = beg + len(src_toks[s])
     elif tier_type == 'morphemes':
         if len(src_toks) == 1:  # when there is only one morpheme, assume it is correct
-            return 0, len(src_toks[s]), 0
+            return 0, len(tgt_tok), 0
         else:  # attempt some common morpheme separations
             def_val = -1  # default is NO MATCH FOUND
             if s == 0:  # this is the FIRST token in line
-- 
2.43.0


From 3a5a1351d237748e50b41f7dd9ef9255048be6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:09 +0000
Subject: [PATCH 58/90] fix: morphemes after the second are found in words with
 hyphens

---
 xigt/importers/toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 3b78540..c42bc93 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -327,7 +327,7 @@ def align_word(tier_type, s, src_data):
                         try_tgt = try_tgt[len(m1.group()):]  # truncate the hyphen
                     if tgt_tok.startswith(prev_toks + src_toks[j].strip(default_bounds)):
                         prev_toks += src_toks[j].strip(default_bounds)  # add the previous morphemes to amalgam
-                        try_tgt = try_tgt[len(prev_toks):]
+                        try_tgt = tgt_tok[len(prev_toks):]
                     else:  # when we encounter a non-matching morpheme, assume the rest of the word
                         return len(prev_toks), len(tgt_tok), -1
                 if tgt_tok.startswith(prev_toks):  # when previous morphemes match LHS of word
-- 
2.43.0


From e2163d5aa20e540e471f9c9237509845fdf4343a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:09 +0000
Subject: [PATCH 59/90] fix: unmatched morphemes segment to the remainder of
 the word

---
 xigt/importers/toolbox.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index c42bc93..a4400e8 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -333,8 +333,7 @@ def align_word(tier_type, s, src_data):
                 if tgt_tok.startswith(prev_toks):  # when previous morphemes match LHS of word
                     if s == len(src_toks) - 1:  # if we are looking at the LAST token in a series, don't need to compare
                         return len(prev_toks), len(tgt_tok), 0  # end of segment = end of word
-                    tgt_tok = tgt_tok[len(prev_toks):]  # truncate prev tokens from target
-                    if tgt_tok.startswith(new_tok):  # left hand side of tgt_tok is the same as new_tok
+                    if tgt_tok.startswith(prev_toks + new_tok):  # the token follows the previous morphemes
                         return len(prev_toks), len(new_tok) + len(prev_toks),0  # end of segment = length of current tok
                 def_val = len(prev_toks)  # when no match is found, assume the rest of the word is the token
             return def_val, len(tgt_tok), -1
-- 
2.43.0


From 42e2a494f2f739194005b61d14bb30ffb4506381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:09 +0000
Subject: [PATCH 60/90] fix: hyphens before a morpheme are no part of its
 segment

---
 xigt/importers/toolbox.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index a4400e8..08fed73 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -330,6 +330,9 @@ def align_word(tier_type, s, src_data):
                         try_tgt = tgt_tok[len(prev_toks):]
                     else:  # when we encounter a non-matching morpheme, assume the rest of the word
                         return len(prev_toks), len(tgt_tok), -1
+                # a hyphen of the orthography before this morpheme is also skipped
+                if new_tok and tgt_tok.startswith(prev_toks + '-' + new_tok):
+                    prev_toks += '-'
                 if tgt_tok.startswith(prev_toks):  # when previous morphemes match LHS of word
                     if s == len(src_toks) - 1:  # if we are looking at the LAST token in a series, don't need to compare
                         return len(prev_toks), len(tgt_tok), 0  # end of segment = end of word
-- 
2.43.0


From 0450ac16203f4237febc18011422f220021a166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:09 +0000
Subject: [PATCH 61/90] fix: records with mismatched alignments are reported,
 not fatal

---
 xigt/importers/toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 08fed73..57f4a9f 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -228,7 +228,7 @@ def make_all_tiers(item_data, options):
         try:
             tier = make_tier(tier_type, tier_id,
                              refattr, aln_tokens, algn_tier)
-        except (AttributeError, AssertionError):
+        except (AttributeError, AssertionError, TypeError):
             raise XigtImportError('Error making {} tier (marker: {}).'
                                   .format(tier_type, mkr))
         prev[tier_id] = tier
-- 
2.43.0


From 3267e1b14b86af2db70302e06822dff0ecdedbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:09 +0000
Subject: [PATCH 62/90] fix: records with invalid ids are reported, not fatal

---
 xigt/importers/toolbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 57f4a9f..eee56d7 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -51,7 +51,7 @@ except ImportError:
 
 from xigt import (XigtCorpus, Igt, Tier, Item, Metadata, Meta)
 from xigt.codecs import xigtxml
-from xigt.errors import XigtImportError
+from xigt.errors import XigtError, XigtImportError
 
 try:
     import toolbox
@@ -185,7 +185,7 @@ def make_igt(key, data, context, options):
                 metadata=metadata,
                 tiers=tiers
             )
-        except (toolbox.ToolboxError, XigtImportError) as ex:
+        except (toolbox.ToolboxError, XigtError, ValueError) as ex:
             logging.error('Error during import of item {}:\n  {}'
                           .format(key, str(ex)))
             igt = None
-- 
2.43.0


From 040d738770f540b83ab9f16e1227d4974f8a2d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:25 +0000
Subject: [PATCH 63/90] fix: characters beyond the basic plane are valid in XML

---
 xigt/importers/odin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 153d07c..c580ce0 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -222,8 +222,7 @@ def make_igt_raw_tier(block, options):
 #  \U000DFFFE, \U000DFFFF, \U000EFFFE, \U000EFFFF, \U000FFFFE, \U000FFFFF,
 #  \U0010FFFE, \U0010FFFF
 invalid_char_re = re.compile('[^\x09\x0A\x0D\u0020-\uD7FF\uE000-\uFFFD'
-                             #'\U00010000-\U0010FFFF]'
-                             ']'
+                             '\U00010000-\U0010FFFF]'
                              , re.UNICODE)
 
 
-- 
2.43.0


From 15f538a5ae96eb43a8cfec4defbe9817de7b2668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:25 +0000
Subject: [PATCH 64/90] fix: the replacement of invalid characters is no
 pattern

---
 xigt/importers/odin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index c580ce0..e8526ba 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -228,4 +228,4 @@ invalid_char_re = re.compile('[^\x09\x0A\x0D\u0020-\uD7FF\uE000-\uFFFD'
 
 def replace_invalid_xml_chars(input, replacement_char):
     # \uFFFD is the unicode replacement character
-    return invalid_char_re.sub(replacement_char, input)
+    return invalid_char_re.sub(lambda m: replacement_char, input)
-- 
2.43.0


From 0ffb01a62f6726c2eaa870052c5a2544fd366d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:25 +0000
Subject: [PATCH 65/90] fix: lines of ODIN blocks may have no content

---
 xigt/importers/odin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index e8526ba..637dee5 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -190,7 +190,7 @@ def make_igt_raw_tier(block, options):
             options['replacement_char']
         )
         attrs = linedata.copy()
-        del attrs['content']
+        attrs.pop('content', None)
         items.append(Item(id='r{}'.format(j+1), attributes=attrs, text=text))
     tier = Tier(
         id='r',
-- 
2.43.0


From 5f3f7480c6836bcf949b1f15ba534f69b794f629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:25 +0000
Subject: [PATCH 66/90] fix: invalid characters in ODIN headers, languages, and
 attributes are replaced

---
 xigt/importers/odin.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 637dee5..0c21cf5 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -123,11 +123,15 @@ def make_igt(block, options):
 
 def make_igt_attributes(block, options):
     start, end = block['line_range'].split()
-    return {
+    attributes = {
         'doc-id': block['doc_id'],
         'line-range': '-'.join([start, end]),
         'tag-types': block['line_types']
     }
+    return {
+        key: replace_invalid_xml_chars(val, options['replacement_char'])
+        for key, val in attributes.items()
+    }
 
 
 def qattrname(attrname, namespace=None):
@@ -148,7 +152,10 @@ def make_igt_metadata(block, options):
     if options['keep_headers'] and block.get('header_lines'):
         md.append(Meta(id='meta{}'.format(mi),
                        type='odin-header',
-                       text='\n'.join(block.get('header_lines', []))
+                       text=replace_invalid_xml_chars(
+                           '\n'.join(block.get('header_lines', [])),
+                           options['replacement_char']
+                       )
         ))
         mi += 1
 
@@ -165,7 +172,10 @@ def make_igt_metadata(block, options):
             qattrname('type', 'xsi'): 'olac:language',
             qattrname('code', 'olac'): lg_code.strip()
         },
-        text=language.title(),
+        text=replace_invalid_xml_chars(
+            language.title(),
+            options['replacement_char']
+        ),
         namespace=_nsmap['dc']
     )
     lang = MetaChild(
@@ -191,6 +201,8 @@ def make_igt_raw_tier(block, options):
         )
         attrs = linedata.copy()
         attrs.pop('content', None)
+        attrs = {key: replace_invalid_xml_chars(val, options['replacement_char'])
+                 for key, val in attrs.items()}
         items.append(Item(id='r{}'.format(j+1), attributes=attrs, text=text))
     tier = Tier(
         id='r',
-- 
2.43.0


From 5bc34f7d08065f44b75733334e18c4162278c165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:25 +0000
Subject: [PATCH 67/90] fix: the suffix of ODIN files is no pattern

---
 xigt/importers/odin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 0c21cf5..1490d75 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -68,7 +68,7 @@ def xigt_import(inpath, outpath, options=None):
             prepare_outdir(outpath)
         filepattern = '*{}'.format(suffix)
         for infile in glob.glob(os.path.join(inpath, filepattern)):
-            outfile = re.sub(suffix + r'$', '.xml', os.path.basename(infile))
+            outfile = re.sub(re.escape(suffix) + r'$', '.xml', os.path.basename(infile))
             _xigt_import(infile, os.path.join(outpath, outfile), options)
     else:
         raise XigtImportError(
-- 
2.43.0


From 8b5cee3a5156a436dcccfcf0f1271c9b8dbb6b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:53 +0000
Subject: [PATCH 68/90] fix: members assigned from the container itself are not
 lost

---
 xigt/metadata.py | 10 +++++++---
 xigt/model.py    |  9 ++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index 95db54a..5de6fa5 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -38,6 +38,7 @@ class XigtMetadataMixin(object):
         if isinstance(value, Metadata):
             raise XigtError('The metadata attribute must be a sequence '
                             'of Metadata objects.')
+        value = list(value)  # it may depend on the current members
         self._md.clear()
         self._md.extend(value)
 
@@ -113,8 +114,9 @@ class Metadata(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @metas.setter
     def metas(self, value):
+        value = list(value or [])  # it may depend on the current members
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
     # deprecated properties
 
@@ -162,8 +164,9 @@ class Meta(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @children.setter
     def children(self, value):
+        value = list(value or [])  # it may depend on the current members
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
 
 class MetaChild(XigtContainerMixin, XigtAttributeMixin):
@@ -203,5 +206,6 @@ class MetaChild(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @children.setter
     def children(self, value):
+        value = list(value or [])  # it may depend on the current members
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
diff --git a/xigt/model.py b/xigt/model.py
index 0bf1011..a6276a8 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -121,8 +121,9 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @igts.setter
     def igts(self, value):
+        value = list(value or [])  # it may depend on the current members
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
 
 class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
@@ -213,8 +214,9 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @tiers.setter
     def tiers(self, value):
+        value = list(value or [])  # it may depend on the current members
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
     def get_item(self, item_id, default=None):
         return self._itemdict.get(item_id, default)
@@ -320,8 +322,9 @@ class Tier(XigtContainerMixin, XigtAttributeMixin,
         return list(self)
     @items.setter
     def items(self, value):
+        value = list(value or [])  # it may depend on the current members
         self.clear()
-        self.extend(value or [])
+        self.extend(value)
 
     def allowed_reference_attributes(self):
         # tiers get _tier_refattrs[tier.type]; if a type is not
-- 
2.43.0


From e0c2c75c6dbd888fca4ac4eba80da20e33a01b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:53 +0000
Subject: [PATCH 69/90] fix: igts assigned to an incremental corpus replace
 those not loaded yet

---
 xigt/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xigt/model.py b/xigt/model.py
index a6276a8..fc6dca1 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -124,6 +124,7 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         value = list(value or [])  # it may depend on the current members
         self.clear()
         self.extend(value)
+        self.mode = FULL  # nothing else is to be loaded
 
 
 class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
-- 
2.43.0


From 340cd56f3104824a6696b6ca559b75557faed28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:53 +0000
Subject: [PATCH 70/90] fix: refused assignments and extensions change nothing

---
 xigt/metadata.py | 16 ++++------------
 xigt/mixins.py   | 27 +++++++++++++++++++++++----
 xigt/model.py    | 12 +++---------
 3 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index 5de6fa5..7458b6b 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -38,9 +38,7 @@ class XigtMetadataMixin(object):
         if isinstance(value, Metadata):
             raise XigtError('The metadata attribute must be a sequence '
                             'of Metadata objects.')
-        value = list(value)  # it may depend on the current members
-        self._md.clear()
-        self._md.extend(value)
+        self._md._set_members(value)
 
     # possibly pending deprecation
 
@@ -114,9 +112,7 @@ class Metadata(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @metas.setter
     def metas(self, value):
-        value = list(value or [])  # it may depend on the current members
-        self.clear()
-        self.extend(value)
+        self._set_members(value or [])
 
     # deprecated properties
 
@@ -164,9 +160,7 @@ class Meta(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @children.setter
     def children(self, value):
-        value = list(value or [])  # it may depend on the current members
-        self.clear()
-        self.extend(value)
+        self._set_members(value or [])
 
 
 class MetaChild(XigtContainerMixin, XigtAttributeMixin):
@@ -206,6 +200,4 @@ class MetaChild(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @children.setter
     def children(self, value):
-        value = list(value or [])  # it may depend on the current members
-        self.clear()
-        self.extend(value)
+        self._set_members(value or [])
diff --git a/xigt/mixins.py b/xigt/mixins.py
index d978a74..0a84f18 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -127,9 +127,25 @@ class XigtContainerMixin(list):
         list.insert(self, i, obj)
 
     def extend(self, objs):
+        objs = list(objs)
+        self._assert_members(objs, self._dict)
         for obj in objs:
             self.append(obj)
 
+    def _assert_members(self, objs, ids):
+        ids = set(ids)
+        for obj in objs:
+            self._assert_type(obj)
+            if obj.id is not None:
+                self._assert_new_id(obj.id, ids)
+                ids.add(obj.id)
+
+    def _set_members(self, objs):
+        objs = list(objs)  # it may depend on the current members
+        self._assert_members(objs, [])
+        self.clear()
+        self.extend(objs)
+
     def remove(self, obj):
         # NOTE: this method is destructive. check for broken refs here?
         # prefer obj itself over a member that is merely equal to it
@@ -152,12 +168,15 @@ class XigtContainerMixin(list):
         # list.clear(self)
         listclear(self)
 
+    def _assert_new_id(self, obj_id, ids):
+        if obj_id in ids:
+            raise XigtError(
+                'Id "{}" already exists in collection.'.format(obj_id),
+            )
+
     def _create_id_mapping(self, obj):
         if obj.id is not None:
-            if obj.id in self._dict:
-                raise XigtError(
-                    'Id "{}" already exists in collection.'.format(obj.id),
-                )
+            self._assert_new_id(obj.id, self._dict)
             self._dict[obj.id] = obj
 
     def refresh_index(self):
diff --git a/xigt/model.py b/xigt/model.py
index fc6dca1..7a83580 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -121,9 +121,7 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @igts.setter
     def igts(self, value):
-        value = list(value or [])  # it may depend on the current members
-        self.clear()
-        self.extend(value)
+        self._set_members(value or [])
         self.mode = FULL  # nothing else is to be loaded
 
 
@@ -215,9 +213,7 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @tiers.setter
     def tiers(self, value):
-        value = list(value or [])  # it may depend on the current members
-        self.clear()
-        self.extend(value)
+        self._set_members(value or [])
 
     def get_item(self, item_id, default=None):
         return self._itemdict.get(item_id, default)
@@ -323,9 +319,7 @@ class Tier(XigtContainerMixin, XigtAttributeMixin,
         return list(self)
     @items.setter
     def items(self, value):
-        value = list(value or [])  # it may depend on the current members
-        self.clear()
-        self.extend(value)
+        self._set_members(value or [])
 
     def allowed_reference_attributes(self):
         # tiers get _tier_refattrs[tier.type]; if a type is not
-- 
2.43.0


From db1e175709901da1d6a00d3390286b99d26656d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:47 +0000
Subject: [PATCH 71/90] fix: an incremental corpus is not empty because nothing
 is loaded yet

---
 xigt/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/model.py b/xigt/model.py
index 7a83580..789e5ff 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -121,7 +121,7 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @igts.setter
     def igts(self, value):
-        self._set_members(value or [])
+        self._set_members(value if value is not None else [])
         self.mode = FULL  # nothing else is to be loaded
 
 
-- 
2.43.0


From 7b15b942b0e3c0bcabbd09179c7ff9b31454b79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:52 +0000
Subject: [PATCH 72/90] fix: a corpus that has loaded nothing yet can be the
 source of another

---
 xigt/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index 789e5ff..b4b3b3a 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -75,10 +75,12 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         )
         XigtMetadataMixin.__init__(self, metadata)
         self.mode = mode
+        if igts is None:
+            igts = []
         if mode == FULL:
-            self.extend(igts or [])
+            self.extend(igts)
         else:
-            self._generator = iter(igts or [])
+            self._generator = iter(igts)
 
     def __repr__(self):
         return '<XigtCorpus object (id: {}) with {} Igts at {}>'.format(
-- 
2.43.0


From 02ac7f81e210edab203293d365316a8e2c7d6ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:40 +0000
Subject: [PATCH 73/90] fix: pop() and += keep the ids and parents of members

---
 xigt/mixins.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 0a84f18..531de47 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -156,6 +156,15 @@ class XigtContainerMixin(list):
             i = list.index(self, obj)  # raises ValueError for non-members
         self._delete(i)
 
+    def pop(self, idx=-1):
+        obj = list.__getitem__(self, idx)
+        self._delete(idx)
+        return obj
+
+    def __iadd__(self, objs):
+        self.extend(objs)
+        return self
+
     def _delete(self, idx):
         obj = list.__getitem__(self, idx)
         if obj.id is not None:
-- 
2.43.0


From 472cc8d73ca5017ae515fe5bef1622452320b028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:21 +0000
Subject: [PATCH 74/90] fix: default namespaces of elements inside metas are
 written as such in XML

---
 xigt/codecs/xigtxml.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 767453f..5d23a1c 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -364,17 +364,34 @@ def default_decode_metachild(elem):
 ##############################################################################
 # Encoding
 
+def _default_namespace(obj):
+    # elements without a namespace must not be in the default one
+    if getattr(obj, 'namespace', None) is None:
+        return ''
+    return obj.nsmap.get('', '')
+
+
+def _nscontext(obj):
+    # the namespaces in scope for the elements inside that of obj
+    return dict(obj.nsmap, **{'': _default_namespace(obj)})
+
+
 # thanks: http://effbot.org/zone/element-namespaces.htm
 def _build_elem(tag, obj, nscontext):
     ns = getattr(obj, 'namespace', None)
-    revmap = dict((v, k) for k, v in getattr(obj, 'nsmap', {}).items())
+    # the default namespace has no prefix, and does not hold for attributes
+    revmap = dict((v, k) for k, v in getattr(obj, 'nsmap', {}).items()
+                  if k != '')
     if revmap.get(ns) is not None:
         tag = '{}:{}'.format(revmap[ns], tag)
     e = Element(tag)
     # element attributes (including namespaces)
     if hasattr(obj, 'nsmap'):
+        default = _default_namespace(obj)
+        if nscontext.get('', '') != default:
+            e.set(_QName('xmlns', sortkey=xigt_attrsort), default)
         for pre, uri in obj.nsmap.items():
-            if nscontext.get(pre) != uri:
+            if pre != '' and nscontext.get(pre) != uri:
                 e.set(_QName('xmlns:%s' % pre, sortkey=xigt_attrsort), uri)
     if getattr(obj, 'id') is not None:
         e.set(_QName('id', sortkey=xigt_attrsort), obj.id)
@@ -400,7 +417,7 @@ def _build_elem(tag, obj, nscontext):
 
 def _build_corpus(xc):
     e = _build_elem('xigt-corpus', xc, {})
-    nsmap = xc.nsmap
+    nsmap = _nscontext(xc)
     for md in xc.metadata:
         e.append(_build_metadata(md, nsmap))
     for igt in xc:
@@ -410,7 +427,7 @@ def _build_corpus(xc):
 
 def _build_igt(igt, nscontext):
     e = _build_elem('igt', igt, nscontext)
-    igt_nsmap = igt.nsmap
+    igt_nsmap = _nscontext(igt)
     for md in igt.metadata:
         e.append(_build_metadata(md, igt_nsmap))
     for tier in igt:
@@ -420,7 +437,7 @@ def _build_igt(igt, nscontext):
 
 def _build_tier(tier, nscontext):
     e = _build_elem('tier', tier, nscontext)
-    tier_nsmap = tier.nsmap
+    tier_nsmap = _nscontext(tier)
     for md in tier.metadata:
         e.append(_build_metadata(md, tier_nsmap))
     for item in tier:
@@ -436,7 +453,7 @@ def _build_item(item, nscontext):
 
 def _build_metadata(md, nscontext):
     e = _build_elem('metadata', md, nscontext)
-    nsmap = md.nsmap
+    nsmap = _nscontext(md)
     for meta in md:
         e.append(_build_meta(meta, nsmap))
     return e
@@ -445,7 +462,7 @@ def _build_metadata(md, nscontext):
 def _build_meta(m, nscontext):
     e = _build_elem('meta', m, nscontext)
     e.text = m.text
-    nsmap = m.nsmap
+    nsmap = _nscontext(m)
     for child in m:
         e.append(_build_metachild(child, nsmap))
     return e
@@ -454,7 +471,7 @@ def _build_meta(m, nscontext):
 def _build_metachild(mc, nscontext):
     e = _build_elem(mc.name, mc, nscontext)
     e.text = mc.text
-    nsmap = mc.nsmap
+    nsmap = _nscontext(mc)
     for child in mc:
         e.append(_build_metachild(child, nsmap))
     return e
-- 
2.43.0


From 2b621465e519ff1f01e2078cabaf0c392a06c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:53 +0000
Subject: [PATCH 75/90] fix: line breaks are delimiters of reference
 expressions

---
 xigt/ref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/ref.py b/xigt/ref.py
index 3ee58ef..cf5a7eb 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -21,7 +21,8 @@ reflist_re = re.compile(r'^\s*([a-zA-Z][-.\w]*)(\s+[a-zA-Z][-.\w]*)*\s*$')
 robust_ref_re = re.compile(
     r'(^|.+?)'  # anything not an id (maybe space, maybe a delimiter)
     r'($|[a-zA-Z][\-.\w]*)'  # id
-    r'(?:$|\[((?:[^-.:\d]?-?[.\d]+:-?[.\d]+)+)\])?'  # range
+    r'(?:$|\[((?:[^-.:\d]?-?[.\d]+:-?[.\d]+)+)\])?',  # range
+    re.DOTALL  # line breaks are delimiters, too
 )
 selection_re = re.compile(
     r'(^|[^-a-zA-Z:.])'  # start of string or delimiter
-- 
2.43.0


From 0a161c7a21b3f342cb79aca3e7cdd05a448b1174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:53 +0000
Subject: [PATCH 76/90] fix: LaTeX export keeps the order of items aligned to
 missing ones

---
 xigt/exporters/latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index db472a2..feb07a4 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -205,7 +205,7 @@ def add_delayed(trellis, delay, pos, depth):
         _, delayed_items = delay.popleft()
         col = [[]] * (depth)
         col.append(delayed_items)
-        trellis.insert(pos, col)
+        trellis.insert(pos + num, col)
         logging.debug('Added delayed items at {}: {}'
                       .format(pos, delayed_items))
         num += 1
-- 
2.43.0


From 7837c1c7955eeda884c855fc9ef61c7190373a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:18 +0000
Subject: [PATCH 77/90] fix: segments of words with characters whose lower-case
 forms are longer

---
 xigt/importers/toolbox.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index eee56d7..111ee4d 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -300,7 +300,10 @@ def align_word(tier_type, s, src_data):
     beg = 0
     end = 0
     tgt_tok, src_toks = src_data
-    tgt_tok = tgt_tok.lower()  # This may cause problems with diacriticals!
+    lower = tgt_tok.lower()  # This may cause problems with diacriticals!
+    if len(lower) != len(tgt_tok):  # segments are positions in tgt_tok
+        lower = ''.join(c.lower()[:1] for c in tgt_tok)
+    tgt_tok = lower
     if tier_type == 'words':
         for i in range(s):
             beg += len(src_toks[i])
-- 
2.43.0


From 750bd71efdac6b95bc20719c830232288bafd2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:35 +0000
Subject: [PATCH 78/90] fix: XML attributes in well-known namespaces do not
 take over a declared prefix

An attribute in a namespace that is not declared but known to ElementTree
was written with the usual prefix for it, even when that prefix was
declared for another namespace, so other attributes with the prefix moved
to the wrong namespace when the corpus was read back.
---
 xigt/codecs/xigtxml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 5d23a1c..42a9a63 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -407,6 +407,9 @@ def _build_elem(tag, obj, nscontext):
                     pre = revmap[uri]
                 except KeyError:
                     pre = _namespace_map[uri]
+                    # the usual prefix may be that of another namespace
+                    while pre in obj.nsmap:
+                        pre += '_'
                     if pre != 'xml':  # others need to be declared
                         e.set(_QName('xmlns:%s' % pre,
                                      sortkey=xigt_attrsort), uri)
-- 
2.43.0


From 8d47c477a413f4f62e11a68d31838be251b45a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:29 +0000
Subject: [PATCH 79/90] fix: items with broken references can be shown

repr() of an item raised when its value could not be resolved (an item
outside of a tier or IGT, dangling or circular references), so that even
printing a list of items failed.
---
 xigt/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xigt/model.py b/xigt/model.py
index b4b3b3a..54eb2d8 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -361,8 +361,12 @@ class Item(XigtAttributeMixin, XigtReferenceAttributeMixin):
         self.text = text
 
     def __repr__(self):
+        try:
+            value = self.value()
+        except Exception:  # the references may be broken
+            value = None
         return '<Item object (id: {}) with value "{}" at {}>'.format(
-            str(self.id or '--'), self.value(), str(id(self))
+            str(self.id or '--'), value, str(id(self))
         )
 
     def __eq__(self, other):
-- 
2.43.0


From 83702a6996d26c41f2dce8d27c25eab7548427a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:54 +0000
Subject: [PATCH 80/90] fix: XML documents that are no corpus, or go on after
 it, are refused

---
 xigt/codecs/xigtxml.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 42a9a63..d1816f1 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -211,11 +211,20 @@ def iter_elements(tag, events, root, break_on=None):
             yield elem
             root.clear()  # free memory after we're done with an element
         event, elem = next(events)
+    _finish(events)
+
+
+def _finish(events):
+    # parse what follows the root, so that it must be well-formed
+    for _ in events:
+        pass
 
 
 def default_decode(events, mode='full'):
     """Decode a XigtCorpus element."""
     event, elem = next(events)
+    if elem.tag != 'xigt-corpus':
+        raise XigtError('Not a xigt-corpus: {}'.format(elem.tag))
     root = elem  # store root for later instantiation
     # ignore elements inside of metadata (the root is not counted)
     level = -1
@@ -231,6 +240,8 @@ def default_decode(events, mode='full'):
                 'igt', events, root, break_on=[('end', 'xigt-corpus')]
             )
         )
+    else:
+        _finish(events)
     xc = decode_xigtcorpus(root, igts=igts, mode=mode)
     return xc
 
-- 
2.43.0


From 2c06a9c662fa3865a6d54ff615d8c47e421abfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:25 +0000
Subject: [PATCH 81/90] fix: validate reports items whose references cannot be
 followed

---
 xigt/scripts/xigt_validate.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index ce01932..40af44b 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -191,6 +191,13 @@ def get_referred_tier(item, refattr):
         return None
     return item.igt.get(tierref)
 
+def get_value(item):
+    # broken references are reported where they are
+    try:
+        return item.value()
+    except Exception:
+        return None
+
 
 # TEST FUNCTIONS
 
@@ -270,7 +277,7 @@ def algnexpr_spans_in_aligned_item(item, refattr):
         tgt_item = reftier.get(item_id)
         if tgt_item is None:
             continue  # this should be caught by algnexpr_ids_in_referred_tier
-        item_len = len(tgt_item.value() or '')
+        item_len = len(get_value(tgt_item) or '')
         if start > item_len or end > item_len:
             error_spans.append(span)
     if error_spans:
@@ -291,7 +298,7 @@ def algnexpr_spans_do_not_overlap(item, refattr):
         tgt_item = reftier.get(item_id)
         if tgt_item is None:
             continue  # this should be caught by algnexpr_ids_in_referred_tier
-        val = tgt_item.value()
+        val = get_value(tgt_item)
         if val is None:
             continue  # does this need to be handled?
         positions = range(len(val))
-- 
2.43.0


From f3312cfb0c188ceca4ebab919889bcb7a0e023a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:43 +0000
Subject: [PATCH 82/90] fix: validate reports spans that are no positions

---
 xigt/scripts/xigt_validate.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 40af44b..c0b9e4f 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -270,8 +270,12 @@ def algnexpr_spans_in_aligned_item(item, refattr):
         sel_delim, item_id, _range = selection_re.match(span).groups()
         if _range:
             _, start, end = span_re.match(_range).groups()
-            start = int(start)
-            end = int(end)
+            try:
+                start = int(start)
+                end = int(end)
+            except ValueError:  # not positions in a text
+                error_spans.append(span)
+                continue
         else:
             continue
         tgt_item = reftier.get(item_id)
@@ -304,7 +308,11 @@ def algnexpr_spans_do_not_overlap(item, refattr):
         positions = range(len(val))
         if _range:
             _, start, end = span_re.match(_range).groups()
-            positions = positions[int(start):int(end)]
+            try:
+                positions = positions[int(start):int(end)]
+            except ValueError:
+                continue  # this should be caught by
+                          # algnexpr_spans_in_aligned_item
         spans_by_id[item_id].update(positions)
     error_spans = [
         item_id for item_id, count in spans_by_id.items()
-- 
2.43.0


From 5184f2b23f772926cb11228fef370acb7ed1440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:44 +0000
Subject: [PATCH 83/90] fix: [incr tsdb()] export leaves its configuration as
 it is

---
 xigt/exporters/itsdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/exporters/itsdb.py b/xigt/exporters/itsdb.py
index 968f3c8..052cd45 100644
--- a/xigt/exporters/itsdb.py
+++ b/xigt/exporters/itsdb.py
@@ -33,8 +33,8 @@ def xigt_export(xc, outpath, config=None):
     )
 
 def prepare_config(config):
-    if config is None:
-        config = {}
+    # the caller's configuration may be used again
+    config = dict(config or {})
     config.setdefault('i-id_start', 0)
     config.setdefault('i-id_skip', 10)
     # attempt to find default Relations file
-- 
2.43.0


From 094c54309060ae0ae72ffb717245974c6c82de88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:50 +0000
Subject: [PATCH 84/90] fix: Toolbox tiers that no marker is mapped to need no
 configuration

---
 xigt/importers/toolbox.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 111ee4d..d1b41a8 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -137,6 +137,8 @@ def _make_tb_alignments(opts):
     tb_alignments = {}
     for t1, aln in opts['alignments'].items():
         refattr, t2 = aln
+        if not (t1 in inv_tier_map and t2 in inv_tier_map):
+            continue  # no marker is mapped to one of the tiers
         if interlinear.get(t1, False) and interlinear.get(t2, False):
             tb_alignments[inv_tier_map[t1]] = inv_tier_map[t2]
     return tb_alignments
-- 
2.43.0


From 4ec4d7de4836d77ab315bdd161443157818f0538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:02 +0000
Subject: [PATCH 85/90] fix: Toolbox records without an id do not end the
 import

---
 xigt/importers/toolbox.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index d1b41a8..144ff90 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -160,8 +160,10 @@ def toolbox_igts(tb, options):
             yield igt
 
 def make_igt(key, data, context, options):
+    if not key:
+        logging.error('Error during import of an item without an id')
+        return None
     # IDs must start with a letter
-    assert key
     if not key[0].isalpha():
         key = 'igt{}'.format(key)
     if context is None:
-- 
2.43.0


From 9c3336fd65633c9ec242e72ec691e23b7f673e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:19 +0000
Subject: [PATCH 86/90] fix: replace characters that XML does not allow in ODIN
 language codes

---
 xigt/importers/odin.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 1490d75..02c4d77 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -170,7 +170,10 @@ def make_igt_metadata(block, options):
         'subject',
         attributes={
             qattrname('type', 'xsi'): 'olac:language',
-            qattrname('code', 'olac'): lg_code.strip()
+            qattrname('code', 'olac'): replace_invalid_xml_chars(
+                lg_code.strip(),
+                options['replacement_char']
+            )
         },
         text=replace_invalid_xml_chars(
             language.title(),
-- 
2.43.0


From 870e569702e69ff83e701678c5c60edf20320335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:29 +0000
Subject: [PATCH 87/90] fix: take the input directory and suffix of ODIN
 imports literally

---
 xigt/importers/odin.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 02c4d77..a87674e 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -66,8 +66,10 @@ def xigt_import(inpath, outpath, options=None):
         suffix = options['input_file_suffix']
         if not os.path.exists(outpath):
             prepare_outdir(outpath)
-        filepattern = '*{}'.format(suffix)
-        for infile in glob.glob(os.path.join(inpath, filepattern)):
+        # neither the suffix nor the path is a pattern itself
+        filepattern = '*{}'.format(glob.escape(suffix))
+        filepattern = os.path.join(glob.escape(inpath), filepattern)
+        for infile in glob.glob(filepattern):
             outfile = re.sub(re.escape(suffix) + r'$', '.xml', os.path.basename(infile))
             _xigt_import(infile, os.path.join(outpath, outfile), options)
     else:
-- 
2.43.0


From 61d5b04956578717543eecab9a839d70e2592cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:53 +0000
Subject: [PATCH 88/90] fix: read bytes given to loads() in the encoding they
 declare

---
 xigt/codecs/xigtxml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index d1816f1..3c0b10e 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -1,5 +1,5 @@
 
-from io import StringIO
+from io import BytesIO, StringIO
 from xml.etree.ElementTree import (
     tostring,
     iterparse,
@@ -56,7 +56,8 @@ def load(fh, mode='full'):
 
 
 def loads(s):
-    if hasattr(s, 'decode'): s = s.decode('utf-8')
+    # the parser finds the encoding of bytes in their declaration
+    if hasattr(s, 'decode'): return load(BytesIO(s))
     return load(StringIO(s))
 
 
-- 
2.43.0


From 7d1fe47cecc0489df308cd42e402c952b18d1ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:53 +0000
Subject: [PATCH 89/90] fix: let the parser find the encoding of validated and
 exported files

---
 xigt/scripts/xigt_export.py   | 2 +-
 xigt/scripts/xigt_validate.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/scripts/xigt_export.py b/xigt/scripts/xigt_export.py
index d782433..eb22723 100755
--- a/xigt/scripts/xigt_export.py
+++ b/xigt/scripts/xigt_export.py
@@ -14,7 +14,7 @@ def run(infile, outpath, out_format, config=None):
     elif out_format == 'itsdb':
         import xigt.exporters.itsdb as exporter
     # elif ...
-    with open(infile, 'r') as in_fh:
+    with open(infile, 'rb') as in_fh:
         xc = xigtxml.load(in_fh, mode='transient')
         exporter.xigt_export(xc, outpath, config=cfg)
 
diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index c0b9e4f..06b6426 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -402,7 +402,7 @@ def run(args):
     from xml.etree import ElementTree as ET
     ids = Counter()
     for i, f in enumerate(args.files):
-        with open(f, 'r') as fh:
+        with open(f, 'rb') as fh:
             try:
                 xc = xigtxml.load(fh, mode='transient')
                 context = make_context(
-- 
2.43.0


From 33e1c9fc7fbb12cb089000ca905a21530ddfd743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:44 +0000
Subject: [PATCH 90/90] fix: report documents with invalid ids as failing to
 load

---
 xigt/scripts/xigt_validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 06b6426..d010a2f 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -410,7 +410,7 @@ def run(args):
                 )
                 # the igts are loaded here
                 report = validate_corpus(xc, context)
-            except (ET.ParseError, XigtError):
+            except (ET.ParseError, XigtError, ValueError):
                 passed.append(False)
                 print('Corpus {} ({}) failed to load. First verify '
                       'that the XML file is valid by doing a schema '
-- 
2.43.0

