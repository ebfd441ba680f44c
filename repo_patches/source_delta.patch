From 0a11723813ed8398a72c5fb3dcb7b0c261d3d5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:38 +0000
Subject: [PATCH 01/63] fix: apply edit-config nodes in document order when
 adding a delta

Adding a delta processed new nodes first and existing nodes in the order of
the source config, so 'insert' attributes of a user-ordered list were
evaluated in a wrong order (e.g. [a, b, c] -> [c, b, a]).
---
 src/ncdiff/netconf.py | 84 ++++++++++++++++++++++++++++++-------------
 1 file changed, 59 insertions(+), 25 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index d93cd67..b4a5def 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -162,6 +162,13 @@ class NetconfCalculator(BaseCalculator):
         'minimum-replace'. The default value of replace_xpath is None.
     '''
 
+    supported_node_type = [
+        'leaf',
+        'leaf-list',
+        'container',
+        'list',
+        ]
+
     def __init__(self, device, etree1, etree2,
                  preferred_create='merge',
                  preferred_replace='merge',
@@ -471,19 +478,20 @@ class NetconfCalculator(BaseCalculator):
             There is no return of this method.
         '''
 
-        supported_node_type = [
-            'leaf',
-            'leaf-list',
-            'container',
-            'list',
-            ]
         in_s_not_in_o, in_o_not_in_s, in_s_and_in_o = \
             self._group_kids(node_sum, node_other)
-        for child_self in in_s_not_in_o:
-            pass
+        peers = {child_other: child_self
+                 for child_self, child_other in in_s_and_in_o}
 
-        for child_other in in_o_not_in_s:
+        # RFC7950 section 7.8.6: entries are modified one at a time, in the
+        # order of the XML elements in the request.
+        for child_other in node_other.getchildren():
             this_operation = child_other.get(operation_tag, default='merge')
+            child_self = peers.get(child_other)
+
+            if child_self is not None:
+                self._node_add_with_peer(node_sum, child_self, child_other)
+                continue
 
             # delete
             if this_operation == 'delete':
@@ -505,7 +513,7 @@ class NetconfCalculator(BaseCalculator):
                 this_operation == 'create'
             ):
                 s_node = self.device.get_schema_node(child_other)
-                if s_node.get('type') in supported_node_type:
+                if s_node.get('type') in self.supported_node_type:
                     getattr(
                         self,
                         '_node_add_without_peer_{}'.format(
@@ -522,22 +530,48 @@ class NetconfCalculator(BaseCalculator):
                     )
                 )
 
-        for child_self, child_other in in_s_and_in_o:
-            s_node = self.device.get_schema_node(child_self)
-            if s_node.get('type') in supported_node_type:
-                getattr(
-                    self,
-                    '_node_add_with_peer_{}'.format(
-                        s_node.get('type').replace('-', '')
-                    )
-                )(child_self, child_other)
+    def _node_add_with_peer(self, node_sum, child_self, child_other):
+        '''_node_add_with_peer
 
-            if not list(child_self):
-                if (
-                    s_node.get('type') == 'container' and
-                    s_node.get('presence') != 'true'
-                ):
-                    node_sum.remove(child_self)
+        Low-level api: Apply delta child_other to child_self, which is a child
+        of node_sum, when child_self is the peer of child_other. Element
+        node_sum will be modified during the process.
+
+        Parameters
+        ----------
+
+        node_sum : `Element`
+            A config node in a config tree.
+
+        child_self : `Element`
+            A child of node_sum.
+
+        child_other : `Element`
+            A child of a config node in another config tree. child_self is
+            the peer of child_other.
+
+        Returns
+        -------
+
+        None
+            There is no return of this method.
+        '''
+
+        s_node = self.device.get_schema_node(child_self)
+        if s_node.get('type') in self.supported_node_type:
+            getattr(
+                self,
+                '_node_add_with_peer_{}'.format(
+                    s_node.get('type').replace('-', '')
+                )
+            )(child_self, child_other)
+
+        if not list(child_self):
+            if (
+                s_node.get('type') == 'container' and
+                s_node.get('presence') != 'true'
+            ):
+                node_sum.remove(child_self)
 
     def _node_add_without_peer_leaf(self, node_sum, child_other):
         '''_node_add_without_peer_leaf
-- 
2.43.0


From 1f074fdd66149488344d30c305f21cc2ee60c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:16 +0000
Subject: [PATCH 02/63] fix: honour implicit deletion of other cases of a
 choice

A delta omits deleting nodes of the old case when another case is created,
but adding the delta to a config kept the nodes of the old case. In addition,
nested choices and diff_type 'replace' were not considered when building the
delta, so nodes which are implicitly deleted were deleted explicitly.
---
 src/ncdiff/netconf.py | 111 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 98 insertions(+), 13 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index b4a5def..3054aeb 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -341,10 +341,13 @@ class NetconfCalculator(BaseCalculator):
         in_s_not_in_o, in_o_not_in_s, in_s_and_in_o = \
             self._group_kids(node_self, node_other)
         ordered_by_user = {}
+        choice_nodes = {}
 
         for child_self in in_s_not_in_o:
             child_self.set(operation_tag, 'replace')
             s_node = self.device.get_schema_node(child_self)
+            # key: choice node, value: case node
+            choice_nodes.update(self._get_cases(s_node))
             if s_node.get('type') == 'leaf-list':
                 if (
                     s_node.get('ordered-by') == 'user' and
@@ -363,11 +366,11 @@ class NetconfCalculator(BaseCalculator):
             child_self = etree.Element(child_other.tag,
                                        nsmap=child_other.nsmap)
             siblings = list(node_self.iterchildren(tag=child_other.tag))
+            s_node = self.device.get_schema_node(child_other)
             if siblings:
                 siblings[-1].addnext(child_self)
-            else:
+            elif not self._in_other_case(s_node, choice_nodes):
                 node_self.append(child_self)
-            s_node = self.device.get_schema_node(child_other)
             if s_node.get('type') == 'leaf-list':
                 child_self.set(operation_tag, self.preferred_delete)
                 self._merge_text(child_other, child_self)
@@ -489,10 +492,15 @@ class NetconfCalculator(BaseCalculator):
             this_operation = child_other.get(operation_tag, default='merge')
             child_self = peers.get(child_other)
 
-            if child_self is not None:
+            if child_self is not None and child_self.getparent() is not None:
                 self._node_add_with_peer(node_sum, child_self, child_other)
                 continue
 
+            # deleted by this edit-config already, as a node in another case
+            # of a choice was created
+            if child_self is not None and this_operation == 'delete':
+                continue
+
             # delete
             if this_operation == 'delete':
                 raise ConfigDeltaError(
@@ -513,6 +521,7 @@ class NetconfCalculator(BaseCalculator):
                 this_operation == 'create'
             ):
                 s_node = self.device.get_schema_node(child_other)
+                self._delete_other_cases(node_sum, s_node)
                 if s_node.get('type') in self.supported_node_type:
                     getattr(
                         self,
@@ -573,6 +582,89 @@ class NetconfCalculator(BaseCalculator):
             ):
                 node_sum.remove(child_self)
 
+    @staticmethod
+    def _get_cases(s_node):
+        '''_get_cases
+
+        Low-level api: Return all cases that a schema node belongs to. There is
+        more than one if choices are nested.
+
+        Parameters
+        ----------
+
+        s_node : `Element`
+            A schema node.
+
+        Returns
+        -------
+
+        dict
+            Dictionary keys are choice nodes, and values are case nodes.
+        '''
+
+        cases = {}
+        case = s_node.getparent()
+        while case is not None and case.get('type') == 'case':
+            cases[case.getparent()] = case
+            case = case.getparent().getparent()
+        return cases
+
+    def _in_other_case(self, s_node, choice_nodes):
+        '''_in_other_case
+
+        Low-level api: Return True if a schema node belongs to a case, but the
+        choice has another case in choice_nodes.
+
+        Parameters
+        ----------
+
+        s_node : `Element`
+            A schema node.
+
+        choice_nodes : `dict`
+            Dictionary keys are choice nodes, and values are case nodes.
+
+        Returns
+        -------
+
+        bool
+            True if the schema node belongs to another case. Otherwise False.
+        '''
+
+        for choice, case in self._get_cases(s_node).items():
+            if choice_nodes.get(choice, case) != case:
+                return True
+        return False
+
+    def _delete_other_cases(self, node_sum, s_node):
+        '''_delete_other_cases
+
+        Low-level api: Creating a node in one case implicitly deletes all nodes
+        in other cases of the choice, as per RFC7950 section 7.9.
+
+        Parameters
+        ----------
+
+        node_sum : `Element`
+            A config node in a config tree.
+
+        s_node : `Element`
+            Schema node of the child that will be created under node_sum.
+
+        Returns
+        -------
+
+        None
+            There is no return of this method.
+        '''
+
+        cases = self._get_cases(s_node)
+        if cases:
+            for child in node_sum.getchildren():
+                child_s_node = self.device.get_schema_node(child)
+                if self._in_other_case(child_s_node, cases):
+                    node_sum.remove(child)
+
     def _node_add_without_peer_leaf(self, node_sum, child_other):
         '''_node_add_without_peer_leaf
 
@@ -1149,10 +1241,8 @@ class NetconfCalculator(BaseCalculator):
                 self.set_delete_operation(child_other, child_self)
             else:
                 child_other.set(operation_tag, self.preferred_delete)
-            if s_node.getparent().get('type') == 'case':
-                # key: choice node, value: case node
-                choice_nodes[s_node.getparent().getparent()] = \
-                    s_node.getparent()
+            # key: choice node, value: case node
+            choice_nodes.update(self._get_cases(s_node))
         for child_other in in_o_not_in_s:
             child_self = etree.Element(child_other.tag,
                                        nsmap=child_other.nsmap)
@@ -1170,12 +1260,7 @@ class NetconfCalculator(BaseCalculator):
                 # - Node in case but choice node not in self
                 # - Node in case and choice node in self and the same case also
                 #   in self
-                if s_node.getparent().get('type') == 'case':
-                    choice_node = s_node.getparent().getparent()
-                    if choice_node not in choice_nodes or \
-                       s_node.getparent() == choice_nodes[choice_node]:
-                        node_self.append(child_self)
-                else:
+                if not self._in_other_case(s_node, choice_nodes):
                     node_self.append(child_self)
             if s_node.get('type') == 'leaf-list':
                 if s_node.get('ordered-by') == 'user' and \
-- 
2.43.0


From 75cc38075f368087d3b41f0ef878ec8ec71315fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:16 +0000
Subject: [PATCH 03/63] fix: do not put operation replace on the config root

With preferred_replace='replace', a difference in a root leaf-list was
expressed as an operation attribute of <config>, which has no effect.
---
 src/ncdiff/netconf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 3054aeb..7773804 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -1179,7 +1179,8 @@ class NetconfCalculator(BaseCalculator):
             There is no return of this method.
         '''
 
-        if self.preferred_replace != 'merge':
+        # roots cannot be replaced by an operation on their parent <config>
+        if self.preferred_replace != 'merge' and depth > 0:
             t_self = [
                 c.tag for c in list(node_self)
                 if self.device.get_schema_node(c).get('type') == 'leaf-list'
-- 
2.43.0


From 5189892e65dc1ca38e3fd652f999cf861e01e08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:29 +0000
Subject: [PATCH 04/63] fix: compare identityref keys of lists regardless of
 prefixes

The schema node of the list instead of the one of the key was used to parse
the text of keys, so the same identity written with different prefixes was
considered as two list entries.
---
 src/ncdiff/calculator.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index 52ba99c..ecc804a 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -153,13 +153,11 @@ class BaseCalculator(object):
                                           self.device.get_xpath(node)))
             return s[0]
 
-        def build_index_tuple(node, keys, s_node):
+        def build_index_tuple(node, keys):
             """
             build a tuple containing the text of all fields listed in keys, taken from node
-
-            s_node is passed to prevent it being looked up twice.
             """
-            out = [self._parse_text(find_one_child(node, k), s_node) for k in keys]
+            out = [self._parse_text(find_one_child(node, k)) for k in keys]
             return tuple(out)
 
         type_for_tag = {}
@@ -192,7 +190,7 @@ class BaseCalculator(object):
                 key = self._parse_text(child, s_node)
             elif node_type == 'list':
                 keys = self._get_list_keys(s_node)
-                key = build_index_tuple(child, keys, s_node)
+                key = build_index_tuple(child, keys)
             return (tag, key)
 
         # build the hashmap for node_one
-- 
2.43.0


From 88ddcc0e24ec3ce74f666fcac90698607e5477b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:29 +0000
Subject: [PATCH 05/63] fix: ignore whitespace in list entries when comparing
 configs

A pretty-printed list entry was not equal to the same entry without
indentation.
---
 src/ncdiff/calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index ecc804a..6c2f4f7 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -409,8 +409,8 @@ class BaseCalculator(object):
             instanceid = InstanceIdentifier(self.device, node)
             return instanceid.default
         else:
-            if schema_node.get("type") == "container":
-                # prevent whitespace in container to cause problems
+            if schema_node.get("type") in ["container", "list"]:
+                # prevent whitespace in container or list to cause problems
                 return None
             return node.text
 
-- 
2.43.0


From 0cf0eb1c53aa7a2c7a4bcf86b3af7521e978434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:28 +0000
Subject: [PATCH 06/63] fix: keep prefixes of identityref values valid when
 adding configs

---
 src/ncdiff/netconf.py | 80 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 76 insertions(+), 4 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 7773804..a96ca86 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -5,7 +5,9 @@ from lxml import etree
 from copy import deepcopy
 from ncclient import operations, xml_
 
+from .ref import IdentityRef, InstanceIdentifier
 from .errors import ConfigDeltaError, ModelError
+from .composer import Tag
 from .calculator import BaseCalculator
 
 # create a logger for this module
@@ -201,8 +203,8 @@ class NetconfCalculator(BaseCalculator):
 
     @property
     def add(self):
-        ele1 = deepcopy(self.etree1)
-        ele2 = deepcopy(self.etree2)
+        ele1, ele2 = self._unify_prefixes(deepcopy(self.etree1),
+                                          deepcopy(self.etree2))
         self.node_add(ele1, ele2)
         return ele1
 
@@ -223,6 +225,76 @@ class NetconfCalculator(BaseCalculator):
             self.add_attribute_at_depth(ele1, self.replace_depth+1, 'operation', 'replace')
         return ele1
 
+    def _unify_prefixes(self, *trees):
+        '''_unify_prefixes
+
+        Low-level api: The value of an identityref or instance-identifier node
+        relies on prefixes declared in XML, but a new location of the node may
+        have different declarations, and lxml drops redundant declarations when
+        a node is moved. To keep these values valid, the prefixes they need are
+        declared at the root of all trees.
+
+        Parameters
+        ----------
+
+        trees : `Element`
+            Roots of config trees.
+
+        Returns
+        -------
+
+        tuple
+            Roots of config trees, in which all values use same prefixes.
+        '''
+
+        def get_reference(node):
+            if node.getparent() is None or not node.text:
+                return None
+            datatype = self.device.get_schema_node(node).get('datatype') or ''
+            if datatype[:11] == 'identityref':
+                return IdentityRef(self.device, node, to_node=probe)
+            elif datatype == 'instance-identifier':
+                return InstanceIdentifier(self.device, node, to_node=probe)
+            else:
+                return None
+
+        def recreate(src, dst):
+            dst.text = texts.get(src, src.text)
+            for child in src:
+                recreate(child,
+                         etree.SubElement(dst, child.tag, attrib=child.attrib,
+                                          nsmap=child.nsmap))
+            return dst
+
+        probe = None
+        urls = set()
+        used = {}
+        nodes = [node for tree in trees for node in tree.iter()]
+        for node in nodes:
+            used.update(node.nsmap)
+            reference = get_reference(node)
+            if reference is not None:
+                urls.update(reference.default_ns.values())
+        if not urls:
+            return trees
+        nsmap = {}
+        for url in sorted(urls):
+            prefix = self.device.convert_ns(url, src=Tag.NAMESPACE,
+                                            dst=Tag.PREFIX)
+            while prefix in nsmap or used.get(prefix, url) != url:
+                prefix += '_'
+            nsmap[prefix] = url
+        probe = etree.Element('probe', nsmap=nsmap)
+        texts = {}
+        for node in nodes:
+            reference = get_reference(node)
+            if reference is not None:
+                texts[node] = reference.converted
+        return tuple(
+            recreate(tree, etree.Element(tree.tag, attrib=tree.attrib,
+                                         nsmap={**tree.nsmap, **nsmap}))
+            for tree in trees)
+
     def add_attribute_at_depth(self, root, depth, attribute, value):
         '''add_attribute_at_depth
         High-level api: Add an attribute to all nodes at a specified depth.
@@ -907,9 +979,9 @@ class NetconfCalculator(BaseCalculator):
 
         this_operation = child_other.get(operation_tag, default='merge')
         if this_operation == 'merge':
-            self._merge_text(child_other, child_self)
+            child_self.text = child_other.text
         elif this_operation == 'replace':
-            self._merge_text(child_other, child_self)
+            child_self.text = child_other.text
         elif this_operation == 'create':
             raise ConfigDeltaError('data-exists: try to create node {} but '
                                    'it already exists'
-- 
2.43.0


From 486bd6e49fbe55a8f5a6433c301c6c91e408145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:47 +0000
Subject: [PATCH 07/63] fix: find roots of a model inside top-level choices

---
 src/ncdiff/manager.py |  9 +++++++--
 src/ncdiff/model.py   | 10 +++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index f4cea8b..97801c0 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -382,8 +382,13 @@ class ModelDevice(manager.Manager):
 
         def get_access_type(model_name, root):
             check_models([model_name])
-            node = list(self.models[model_name].tree.iterchildren(tag=root))[0]
-            return node.get('access')
+            for node in self.models[model_name].tree.iter(tag=root):
+                # a root may be in a choice at the top level of the model
+                ancestors = list(node.iterancestors())[:-1]
+                if all(n.get('type') in ['choice', 'case']
+                       for n in ancestors) and \
+                   node.get('type') not in ['choice', 'case']:
+                    return node.get('access')
 
         # allow for operation string type
         if type(operation) is str:
diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 8ebc5e4..5f3e182 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -107,7 +107,15 @@ class Model(object):
 
     @property
     def roots(self):
-        return [c.tag for c in self.tree]
+        def get_roots(node):
+            for child in node:
+                # RFC7950 section 7.9: choices and cases are not data nodes
+                if child.get('type') in ['choice', 'case']:
+                    yield from get_roots(child)
+                else:
+                    yield child.tag
+
+        return list(get_roots(self.tree))
 
     def emit_tree(self, tree):
         '''emit_tree
-- 
2.43.0


From 82688001fe7b0b7051374a049b172d48fbc8ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:57 +0000
Subject: [PATCH 08/63] fix: find insertion anchors by value, whatever quotes
 or prefixes are used

---
 src/ncdiff/netconf.py | 117 ++++++++++++++++++++++++++++--------------
 1 file changed, 79 insertions(+), 38 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index a96ca86..627bedd 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -36,6 +36,15 @@ def _inserterror(direction, path, attr_name, attr_value=None):
                                .format(path, direction, attr_name))
 
 
+def _quote(text):
+    if text is None:
+        return "''"
+    elif "'" in text:
+        return '"{}"'.format(text)
+    else:
+        return "'{}'".format(text)
+
+
 def _copy_element(new_parent, element):
     new_child = etree.SubElement(new_parent, element.tag,
                                  attrib=element.attrib,
@@ -516,7 +525,7 @@ class NetconfCalculator(BaseCalculator):
                     item.set(insert_tag, 'after')
                     precursor = sequence[i - 1]
                     if ordered_by_user[tag] == 'leaf-list':
-                        item.set(value_tag, precursor.text)
+                        item.set(value_tag, precursor.text or '')
                     else:
                         keys = ordered_by_user[tag]
                         key_nodes = {k: precursor.find(k) for k in keys}
@@ -525,7 +534,7 @@ class NetconfCalculator(BaseCalculator):
                             for k, n in key_nodes.items()
                         }
                         id_list = [
-                            "[{}='{}']".format(ids[k], key_nodes[k].text)
+                            "[{}={}]".format(ids[k], _quote(key_nodes[k].text))
                             for k in keys
                         ]
                         item.set(key_tag, ''.join(id_list))
@@ -737,6 +746,54 @@ class NetconfCalculator(BaseCalculator):
                 if self._in_other_case(child_s_node, cases):
                     node_sum.remove(child)
 
+    def _get_anchors(self, parent, child_other):
+        """_get_anchors
+
+        Low-level api: Find the sibling that attribute value or attribute key
+        of child_other refers to, as per RFC7950 section 7.7.9 and 7.8.6.
+
+        Parameters
+        ----------
+
+        parent : `Element`
+            A config node in a config tree.
+
+        child_other : `Element`
+            A child of a config node in another config tree. It is a list or
+            leaf-list node that has an attribute insert.
+
+        Returns
+        -------
+
+        list
+            A list of children of parent.
+        """
+
+        def get_text(text, s_node):
+            node = etree.Element(s_node.tag, nsmap=child_other.nsmap)
+            node.text = text or None
+            return self._parse_text(node, s_node)
+
+        s_node = self.device.get_schema_node(child_other)
+        if s_node.get('type') == 'leaf-list':
+            text = get_text(child_other.get(value_tag), s_node)
+            return [s for s in parent.findall(child_other.tag)
+                    if self._parse_text(s, s_node) == text]
+
+        predicates = re.findall(r"""\[\s*(?:[^\s=:]+:)?([^\s=:]+)\s*=\s*"""
+                                r"""(?:'([^']*)'|"([^"]*)")\s*\]""",
+                                child_other.get(key_tag))
+        values = {name: one or two for name, one, two in predicates}
+        texts = {}
+        for key in self._get_list_keys(s_node):
+            name = key.rsplit('}', 1)[-1]
+            if name not in values:
+                return []
+            texts[key] = get_text(values[name], s_node.find(key))
+        return [s for s in parent.findall(child_other.tag)
+                if all(self._parse_text(s.find(key)) == text
+                       for key, text in texts.items())]
+
     def _node_add_without_peer_leaf(self, node_sum, child_other):
         '''_node_add_without_peer_leaf
 
@@ -808,9 +865,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(value_tag) is None:
                     _inserterror('before', self.device.get_xpath(child_other),
                                  'value')
-                siblings = node_sum.findall(child_other.tag)
-                sibling = [s for s in siblings
-                           if s.text == child_other.get(value_tag)]
+                sibling = self._get_anchors(node_sum, child_other)
                 if not sibling:
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
@@ -820,9 +875,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(value_tag) is None:
                     _inserterror('after', self.device.get_xpath(child_other),
                                  'value')
-                siblings = node_sum.findall(child_other.tag)
-                sibling = [s for s in siblings
-                           if s.text == child_other.get(value_tag)]
+                sibling = self._get_anchors(node_sum, child_other)
                 if not sibling:
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
@@ -924,26 +977,22 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(key_tag) is None:
                     _inserterror('before', self.device.get_xpath(child_other),
                                  'key')
-                sibling = node_sum.find(child_other.tag +
-                                        child_other.get(key_tag),
-                                        namespaces=child_other.nsmap)
-                if sibling is None:
+                sibling = self._get_anchors(node_sum, child_other)
+                if not sibling:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
                     _inserterror('before', path, 'key', key)
-                sibling.addprevious(e)
+                sibling[0].addprevious(e)
             elif child_other.get(insert_tag) == 'after':
                 if child_other.get(key_tag) is None:
                     _inserterror('after', self.device.get_xpath(child_other),
                                  'key')
-                sibling = node_sum.find(child_other.tag +
-                                        child_other.get(key_tag),
-                                        namespaces=child_other.nsmap)
-                if sibling is None:
+                sibling = self._get_anchors(node_sum, child_other)
+                if not sibling:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
                     _inserterror('after', path, 'key', key)
-                sibling.addnext(e)
+                sibling[0].addnext(e)
         else:
             if siblings:
                 siblings[-1].addnext(e)
@@ -1047,9 +1096,7 @@ class NetconfCalculator(BaseCalculator):
                         _inserterror('before',
                                      self.device.get_xpath(child_other),
                                      'value')
-                    siblings = parent_self.findall(child_other.tag)
-                    sibling = [s for s in siblings
-                               if s.text == child_other.get(value_tag)]
+                    sibling = self._get_anchors(parent_self, child_other)
                     if not sibling:
                         path = self.device.get_xpath(child_other)
                         value = child_other.get(value_tag)
@@ -1061,9 +1108,7 @@ class NetconfCalculator(BaseCalculator):
                         _inserterror('after',
                                      self.device.get_xpath(child_other),
                                      'value')
-                    siblings = parent_self.findall(child_other.tag)
-                    sibling = [s for s in siblings
-                               if s.text == child_other.get(value_tag)]
+                    sibling = self._get_anchors(parent_self, child_other)
                     if not sibling:
                         path = self.device.get_xpath(child_other)
                         value = child_other.get(value_tag)
@@ -1180,28 +1225,24 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(key_tag) is None:
                     _inserterror('before', self.device.get_xpath(child_other),
                                  'key')
-                sibling = parent_self.find(child_other.tag +
-                                           child_other.get(key_tag),
-                                           namespaces=child_other.nsmap)
-                if sibling is None:
+                sibling = self._get_anchors(parent_self, child_other)
+                if not sibling:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
                     _inserterror('before', path, 'key', key)
-                if sibling != child_self:
-                    sibling.addprevious(child_self)
+                if sibling[0] != child_self:
+                    sibling[0].addprevious(child_self)
             elif child_other.get(insert_tag) == 'after':
                 if child_other.get(key_tag) is None:
                     _inserterror('after', self.device.get_xpath(child_other),
                                  'key')
-                sibling = parent_self.find(child_other.tag +
-                                           child_other.get(key_tag),
-                                           namespaces=child_other.nsmap)
-                if sibling is None:
+                sibling = self._get_anchors(parent_self, child_other)
+                if not sibling:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
                     _inserterror('after', path, 'key', key)
-                if sibling != child_self:
-                    sibling.addnext(child_self)
+                if sibling[0] != child_self:
+                    sibling[0].addnext(child_self)
         if this_operation == 'merge':
             self.node_add(child_self, child_other)
         elif this_operation == 'replace':
@@ -1439,7 +1480,7 @@ class NetconfCalculator(BaseCalculator):
                         item.set(insert_tag, 'after')
                         precursor = sequence[i - 1]
                         if ordered_by_user[tag] == 'leaf-list':
-                            item.set(value_tag, precursor.text)
+                            item.set(value_tag, precursor.text or '')
                         else:
                             keys = ordered_by_user[tag]
                             key_nodes = {k: precursor.find(k) for k in keys}
@@ -1448,7 +1489,7 @@ class NetconfCalculator(BaseCalculator):
                                 for k, n in key_nodes.items()
                             }
                             id_list = [
-                                "[{}='{}']".format(ids[k], key_nodes[k].text)
+                                "[{}={}]".format(ids[k], _quote(key_nodes[k].text))
                                 for k in keys
                             ]
                             item.set(key_tag, ''.join(id_list))
-- 
2.43.0


From 461705835861559b8368db5802a2a598fa870063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:46 +0000
Subject: [PATCH 09/63] fix: leave apostrophes in instance-identifier literals
 alone

---
 src/ncdiff/ref.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index f992b0e..42bc102 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -300,7 +300,9 @@ class InstanceIdentifier(IdentityRef):
     @staticmethod
     def convert_literal(literal):
         converted_literal = literal[1:-1]
-        converted_literal = re.sub("'", "''", converted_literal)
+        # apostrophes cannot be escaped in XPath 1.0
+        if "'" in converted_literal:
+            return literal
         return "'" + re.sub('""', '"', converted_literal) + "'"
 
     def parse_quote(self):
-- 
2.43.0


From e584ffc2ac3ffc244b6e4a653162ae6711deee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:24 +0000
Subject: [PATCH 10/63] fix: accept comments inside config

---
 src/ncdiff/netconf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 627bedd..a7f80f7 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -51,7 +51,8 @@ def _copy_element(new_parent, element):
                                  nsmap=element.nsmap)
     if element.text is not None:
         new_child.text = element.text
-    for subelement in element:
+    # comments and processing instructions are not config
+    for subelement in element.iterchildren(tag=etree.Element):
         _copy_element(new_child, subelement)
 
 
-- 
2.43.0


From 1f99462834e81549eadfac6f526a5394c1e4b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:17 +0000
Subject: [PATCH 11/63] fix: name list keys in insertion anchors with prefixes
 valid at the entry

---
 src/ncdiff/netconf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index a7f80f7..1801b17 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -531,8 +531,8 @@ class NetconfCalculator(BaseCalculator):
                         keys = ordered_by_user[tag]
                         key_nodes = {k: precursor.find(k) for k in keys}
                         ids = {
-                            k: self._url_to_prefix(n, k)
-                            for k, n in key_nodes.items()
+                            k: self._url_to_prefix(item, k)
+                            for k in key_nodes
                         }
                         id_list = [
                             "[{}={}]".format(ids[k], _quote(key_nodes[k].text))
@@ -1486,8 +1486,8 @@ class NetconfCalculator(BaseCalculator):
                             keys = ordered_by_user[tag]
                             key_nodes = {k: precursor.find(k) for k in keys}
                             ids = {
-                                k: self._url_to_prefix(n, k)
-                                for k, n in key_nodes.items()
+                                k: self._url_to_prefix(item, k)
+                                for k in key_nodes
                             }
                             id_list = [
                                 "[{}={}]".format(ids[k], _quote(key_nodes[k].text))
-- 
2.43.0


From f4d0f58f92ed82269cd0e7f00cd76506cc19d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:14 +0000
Subject: [PATCH 12/63] fix: reject edit-config attributes on leaves of a
 config

---
 src/ncdiff/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index aa351b8..8bacb98 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -482,7 +482,7 @@ class Config(object):
                                   "be found:\n{}"
                                   .format(self.device.get_xpath(child), self))
 
-            if len(child) > 0:
+            if len(child) > 0 or child_schema_node.get('type') != 'list':
                 self._validate_node(child)
 
             # clean up empty NP containers
-- 
2.43.0


From 7061d9939d899767a69cab83f1a51923148ebf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:53 +0000
Subject: [PATCH 13/63] fix: prune containers emptied of read-only nodes in
 extract_config

---
 src/ncdiff/manager.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 97801c0..9c0c3c1 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -526,6 +526,13 @@ class ModelDevice(manager.Manager):
                     parent.remove(child)
                 elif len(child) > 0:
                     remove_read_only(child)
+                    # clean up empty NP containers
+                    if (
+                        len(child) == 0 and
+                        schema_node.get('type') == 'container' and
+                        schema_node.get('presence') != 'true'
+                    ):
+                        parent.remove(child)
 
         config = Config(self, reply, validate=True,
                         remove_deprecated=remove_deprecated)
-- 
2.43.0


From 40c359b588c069f3e72bd73910f8cf682cfec491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:22 +0000
Subject: [PATCH 14/63] fix: generate a random seed when only the random depth
 is given

---
 src/ncdiff/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 8bacb98..3ab63a2 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -671,7 +671,7 @@ class ConfigDelta(object):
             raise ValueError("argument 'random_depth' must be a non-negative "
                              "integer or None, but not {} '{}'"
                              .format(type(random_depth), random_depth))
-        self._random_seed = random_seed
+        self.random_seed = random_seed
         if not isinstance(config_src, Config):
             raise TypeError("argument 'config_src' must be "
                             "yang.ncdiff.Config, but not '{}'"
-- 
2.43.0


From 68faa10784490519be8a004a7fb111ed4f20f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:03 +0000
Subject: [PATCH 15/63] fix: keep namespace declarations when reordering a
 delta

---
 src/ncdiff/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 3ab63a2..77c7d25 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -8,7 +8,7 @@ from ncclient import operations, xml_
 
 from .model import ModelDiff
 from .errors import ConfigError, ModelMissing, ModelIncompatible
-from .netconf import NetconfParser, NetconfCalculator
+from .netconf import NetconfParser, NetconfCalculator, _copy_element
 from .composer import Composer
 from .calculator import BaseCalculator
 
@@ -826,15 +826,17 @@ class ConfigDelta(object):
             else:
                 break
         if length - num_keys == 2:
+            _copy_element(node, buffer[num_keys])
             node.remove(buffer[num_keys])
-            node.append(buffer[num_keys])
         elif length - num_keys > 2:
             random.seed(seed)
             old_sequence = list(range(num_keys, length))
             new_sequence = random.sample(
                 range(num_keys, length), length - num_keys)
+            # moving a node could drop namespace declarations that values of
+            # its descendants need
+            [_copy_element(node, buffer[i]) for i in new_sequence]
             [node.remove(buffer[i]) for i in reversed(old_sequence)]
-            [node.append(buffer[i]) for i in new_sequence]
 
 
     def reorder(self,node, seed, depth, current_depth):
-- 
2.43.0


From dd84fae9d6ee4fd981699c201832e91728c0a34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:10 +0000
Subject: [PATCH 16/63] fix: keep nodes in their namespace when configs have a
 foreign default namespace

---
 src/ncdiff/netconf.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 1801b17..6c13a7f 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -45,6 +45,15 @@ def _quote(text):
         return "'{}'".format(text)
 
 
+def _has_foreign_default(tree):
+    # When a node is moved, lxml may replace its prefix with the default
+    # namespace of its new parent. A different default namespace declared at
+    # the node would then put the node in a wrong namespace.
+    return any(None in node.nsmap and
+               node.nsmap[None] != etree.QName(node).namespace
+               for node in tree.iter())
+
+
 def _copy_element(new_parent, element):
     new_child = etree.SubElement(new_parent, element.tag,
                                  attrib=element.attrib,
@@ -222,6 +231,8 @@ class NetconfCalculator(BaseCalculator):
     def sub(self):
         ele1 = deepcopy(self.etree1)
         ele2 = deepcopy(self.etree2)
+        if _has_foreign_default(ele1) or _has_foreign_default(ele2):
+            ele1, ele2 = self._unify_prefixes(ele1, ele2)
         if self.diff_type == 'replace' and self.replace_depth == 0:
             self.get_config_replace(ele1, ele2)
         else:
@@ -242,7 +253,8 @@ class NetconfCalculator(BaseCalculator):
         relies on prefixes declared in XML, but a new location of the node may
         have different declarations, and lxml drops redundant declarations when
         a node is moved. To keep these values valid, the prefixes they need are
-        declared at the root of all trees.
+        declared at the root of all trees. The default namespace of every node,
+        if there is any, becomes the namespace of the node.
 
         Parameters
         ----------
@@ -271,9 +283,12 @@ class NetconfCalculator(BaseCalculator):
         def recreate(src, dst):
             dst.text = texts.get(src, src.text)
             for child in src:
+                child_nsmap = child.nsmap
+                if None in child_nsmap:
+                    child_nsmap[None] = etree.QName(child).namespace
                 recreate(child,
                          etree.SubElement(dst, child.tag, attrib=child.attrib,
-                                          nsmap=child.nsmap))
+                                          nsmap=child_nsmap))
             return dst
 
         probe = None
@@ -285,7 +300,7 @@ class NetconfCalculator(BaseCalculator):
             reference = get_reference(node)
             if reference is not None:
                 urls.update(reference.default_ns.values())
-        if not urls:
+        if not urls and not any(_has_foreign_default(t) for t in trees):
             return trees
         nsmap = {}
         for url in sorted(urls):
-- 
2.43.0


From 7b7a61e5c001f5ddf3d4ef6a2502f20742bc984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:21 +0000
Subject: [PATCH 17/63] fix: keep prefixes of identityref values valid in
 deltas of augmented nodes

---
 src/ncdiff/netconf.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 6c13a7f..9cbff4f 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -45,13 +45,20 @@ def _quote(text):
         return "'{}'".format(text)
 
 
-def _has_foreign_default(tree):
-    # When a node is moved, lxml may replace its prefix with the default
+def _mixes_namespaces(tree):
+    # When a node is moved, lxml may replace its prefixes with the default
     # namespace of its new parent. A different default namespace declared at
-    # the node would then put the node in a wrong namespace.
-    return any(None in node.nsmap and
-               node.nsmap[None] != etree.QName(node).namespace
-               for node in tree.iter())
+    # the node would then put the node, or what its value refers to, in a
+    # wrong namespace.
+    for node in tree.iterdescendants():
+        default = node.nsmap.get(None)
+        if default is not None and default != etree.QName(node).namespace:
+            return True
+        above = node.getparent().nsmap.get(None)
+        if default != above and any(url == above and prefix is not None
+                                    for prefix, url in node.nsmap.items()):
+            return True
+    return False
 
 
 def _copy_element(new_parent, element):
@@ -231,7 +238,7 @@ class NetconfCalculator(BaseCalculator):
     def sub(self):
         ele1 = deepcopy(self.etree1)
         ele2 = deepcopy(self.etree2)
-        if _has_foreign_default(ele1) or _has_foreign_default(ele2):
+        if _mixes_namespaces(ele1) or _mixes_namespaces(ele2):
             ele1, ele2 = self._unify_prefixes(ele1, ele2)
         if self.diff_type == 'replace' and self.replace_depth == 0:
             self.get_config_replace(ele1, ele2)
@@ -300,7 +307,7 @@ class NetconfCalculator(BaseCalculator):
             reference = get_reference(node)
             if reference is not None:
                 urls.update(reference.default_ns.values())
-        if not urls and not any(_has_foreign_default(t) for t in trees):
+        if not urls and not any(_mixes_namespaces(t) for t in trees):
             return trees
         nsmap = {}
         for url in sorted(urls):
-- 
2.43.0


From 09539864ad956edac5fef862125a7dc5c73a5294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:55 +0000
Subject: [PATCH 18/63] fix: allow dots in node names of instance-identifiers

---
 src/ncdiff/ref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index 42bc102..18fedf7 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -383,7 +383,8 @@ class InstanceIdentifier(IdentityRef):
         for idx, char in enumerate(string):
             if start_idx is None and char not in SEPARATORS:
                 start_idx = idx
-            elif start_idx is not None and char in SEPARATORS:
+            elif start_idx is not None and char == '/':
+                # a dot does not separate names, they may contain it
                 end_idx = idx
                 tag = string[start_idx:end_idx]
                 if tag == '*':
-- 
2.43.0


From 61628b64ec518ea05d257a312fe30b537e4453e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:48 +0000
Subject: [PATCH 19/63] fix: keep list keys that equal the default of the key
 leaf

---
 src/ncdiff/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 77c7d25..b0db5b6 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -403,6 +403,7 @@ class Config(object):
             # mandatory.
             elif (
                 child_schema_node.get('type') == 'leaf' and
+                child_schema_node.get('is_key') is None and
                 child_schema_node.get('default') is not None and
                 child.text == child_schema_node.get('default')
             ):
-- 
2.43.0


From 23423f3550ba84480d3037640052070744164865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:52 +0000
Subject: [PATCH 20/63] fix: compare whole words of commands when dropping
 redundant CLIs

"no vlan 10" was dropped next to "no vlan 1", "vlan 1" next to "vlan 10",
and "ntp server 1.1.1.1" was not removed when "ntp server 1.1.1.10" was added.
---
 src/ncdiff/runningconfig.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index 8508937..2f5fbea 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -540,9 +540,9 @@ class RunningConfigDiff(object):
                     # - service timestamps debug datetime msec
                     # + service timestamps debug datetime msec localtime
                     #   show-timezone
-                    key_len = len(k)
                     matching_positive_keys = [
-                        key for key in positive_keys if key[:key_len] == k]
+                        key for key in positive_keys
+                        if self.is_beginning(k, key)]
                     if not matching_positive_keys:
                         self.append_command('no ' + k,
                                             negative_list, positive_list)
@@ -805,6 +805,11 @@ class RunningConfigDiff(object):
             if tup[1] is not None:
                 RunningConfigDiff.handle_sibling_cammands(tup[1])
 
+    @staticmethod
+    def is_beginning(cmd1, cmd2):
+        # Whole words: "vlan 1" is not the beginning of "vlan 10"
+        return cmd1 == cmd2 or cmd2.startswith(cmd1 + ' ')
+
     @staticmethod
     def remove_unnecessary_negative_commands(negative_list):
         cmds = [i for i, c in enumerate(negative_list)
@@ -818,9 +823,9 @@ class RunningConfigDiff(object):
                 if c1 == c2 or len(c1) == len(c2):
                     continue
                 if len(c1) < len(c2):
-                    if c1 == c2[:len(c1)]:
+                    if RunningConfigDiff.is_beginning(c1, c2):
                         indexes.add(idx2)
-                elif c1[:len(c2)] == c2:
+                elif RunningConfigDiff.is_beginning(c2, c1):
                     indexes.add(idx1)
         if indexes:
             for idx in sorted(indexes, reverse=True):
@@ -839,9 +844,9 @@ class RunningConfigDiff(object):
                 if c1 == c2 or len(c1) == len(c2):
                     continue
                 if len(c1) < len(c2):
-                    if c1 == c2[:len(c1)]:
+                    if RunningConfigDiff.is_beginning(c1, c2):
                         indexes.add(idx1)
-                elif c1[:len(c2)] == c2:
+                elif RunningConfigDiff.is_beginning(c2, c1):
                     indexes.add(idx2)
         if indexes:
             for idx in sorted(indexes, reverse=True):
-- 
2.43.0


From b5bd70ad92a94b8f1281f39d6e3f7ffe8de6594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:52 +0000
Subject: [PATCH 21/63] fix: remove the short form of coexisting commands when
 the long form is added

---
 src/ncdiff/runningconfig.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index 2f5fbea..60b2896 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -542,7 +542,9 @@ class RunningConfigDiff(object):
                     #   show-timezone
                     matching_positive_keys = [
                         key for key in positive_keys
-                        if self.is_beginning(k, key)]
+                        if key == k or
+                        k not in COEXIST_SHORT_POSITIVE_COMMANDS and
+                        self.is_beginning(k, key)]
                     if not matching_positive_keys:
                         self.append_command('no ' + k,
                                             negative_list, positive_list)
-- 
2.43.0


From b94cc7bd2f6186b53c3e0018ba0cb0cf360feb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:04 +0000
Subject: [PATCH 22/63] fix: load the module of a submodule that augments the
 compiled module

---
 src/ncdiff/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 5f3e182..aa6003c 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1021,6 +1021,9 @@ class ModelCompiler(object):
             if list(filter(lambda i: i.get('module') == module,
                            m.findall('./imports/import'))):
                 depends.add(m.get('id'))
+                # a submodule depends on behalf of the module it belongs to
+                depends.update(i.get('module')
+                               for i in m.findall('./belongs-to'))
             if list(filter(lambda i: i.get('module') == module,
                            m.findall('./includes/include'))):
                 depends.add(m.get('id'))
-- 
2.43.0


From d44789fad2bbbd3c7cbac64129d09b4b51509142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:34 +0000
Subject: [PATCH 23/63] fix: treat typedefs of and leafrefs to identityref and
 instance-identifier as such

---
 src/ncdiff/calculator.py | 16 +++++++---------
 src/ncdiff/model.py      | 23 +++++++++++++++++++++++
 src/ncdiff/netconf.py    |  8 ++++----
 src/ncdiff/ref.py        |  6 ++++++
 4 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index 6c2f4f7..502d13c 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -3,7 +3,7 @@ from functools import lru_cache
 
 from ncclient import xml_
 
-from .ref import IdentityRef, InstanceIdentifier
+from .ref import IdentityRef, InstanceIdentifier, get_base_type
 from .errors import ConfigError
 from .composer import Composer
 
@@ -400,12 +400,11 @@ class BaseCalculator(object):
 
         if schema_node is None:
             schema_node = self.device.get_schema_node(node)
-        if schema_node.get('datatype') is not None and \
-          (schema_node.get('datatype')[:11] == 'identityref'):
+        base_type = get_base_type(schema_node)
+        if base_type == 'identityref':
             idref = IdentityRef(self.device, node)
             return idref.default
-        elif schema_node.get('datatype') is not None and \
-             schema_node.get('datatype') == 'instance-identifier':
+        elif base_type == 'instance-identifier':
             instanceid = InstanceIdentifier(self.device, node)
             return instanceid.default
         else:
@@ -465,13 +464,12 @@ class BaseCalculator(object):
             to_node.text = None
             return
         schema_node = self.device.get_schema_node(from_node)
-        if schema_node.get('datatype') is not None and \
-           schema_node.get('datatype')[:11] == 'identityref':
+        base_type = get_base_type(schema_node)
+        if base_type == 'identityref':
             idref = IdentityRef(self.device,
                                 from_node, to_node=to_node)
             to_node.text = idref.converted
-        elif schema_node.get('datatype') is not None and \
-             schema_node.get('datatype') == 'instance-identifier':
+        elif base_type == 'instance-identifier':
             instanceid = InstanceIdentifier(self.device,
                                             from_node, to_node=to_node)
             to_node.text = instanceid.converted
diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index aa6003c..b392081 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1274,6 +1274,10 @@ class ModelCompiler(object):
                 datatype = sm.arg
             leaf_node.set('datatype', datatype)
 
+            base_type = self.get_base_type(leaf_statement)
+            if base_type != sm.arg:
+                leaf_node.set('basetype', base_type)
+
             type_values = self.type_values(sm)
             if type_values:
                 leaf_node.set('values', type_values)
@@ -1283,6 +1287,25 @@ class ModelCompiler(object):
                     '|'.join([m.arg for m in sm.search('type')])
                 )
 
+    @staticmethod
+    def get_base_type(leaf_statement):
+        # Follow typedefs and leafrefs
+        sm = leaf_statement.search_one('type')
+        visited = set()
+        while sm is not None and sm not in visited:
+            visited.add(sm)
+            if getattr(sm, 'i_typedef', None) is not None:
+                sm = sm.i_typedef.search_one('type')
+            elif (
+                sm.arg == 'leafref' and
+                getattr(leaf_statement, 'i_leafref_ptr', None) is not None
+            ):
+                leaf_statement = leaf_statement.i_leafref_ptr[0]
+                sm = leaf_statement.search_one('type')
+            else:
+                break
+        return '' if sm is None else sm.arg
+
     def type_values(self, type_statement):
         if type_statement is None:
             return ''
diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 9cbff4f..67b5af0 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -5,7 +5,7 @@ from lxml import etree
 from copy import deepcopy
 from ncclient import operations, xml_
 
-from .ref import IdentityRef, InstanceIdentifier
+from .ref import IdentityRef, InstanceIdentifier, get_base_type
 from .errors import ConfigDeltaError, ModelError
 from .composer import Tag
 from .calculator import BaseCalculator
@@ -279,10 +279,10 @@ class NetconfCalculator(BaseCalculator):
         def get_reference(node):
             if node.getparent() is None or not node.text:
                 return None
-            datatype = self.device.get_schema_node(node).get('datatype') or ''
-            if datatype[:11] == 'identityref':
+            base_type = get_base_type(self.device.get_schema_node(node))
+            if base_type == 'identityref':
                 return IdentityRef(self.device, node, to_node=probe)
-            elif datatype == 'instance-identifier':
+            elif base_type == 'instance-identifier':
                 return InstanceIdentifier(self.device, node, to_node=probe)
             else:
                 return None
diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index 18fedf7..2637528 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -4,6 +4,12 @@ from .errors import ConfigError
 from .composer import Tag
 
 
+def get_base_type(schema_node):
+    # Built-in type of a leaf or leaf-list, typedefs and leafrefs resolved
+    base_type = schema_node.get('basetype') or schema_node.get('datatype', '')
+    return base_type.split(':')[0]
+
+
 class IdentityRef(object):
     '''IdentityRef
 
-- 
2.43.0


From 7d1a1bb5ce65028a20885d01e4500a8795cb2b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:21 +0000
Subject: [PATCH 24/63] fix: list all identities derived from the base of an
 identityref

The first identity found was dropped, as were second bases and transitively
derived identities, and a base without prefix was looked up in the compiled
module instead of the module of the identity.
---
 src/ncdiff/model.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index b392081..6009217 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1074,6 +1074,7 @@ class ModelCompiler(object):
                     kwargs['in_format'] = 'yang'
                 self.context.add_module(**kwargs)
         self.context.validate_context()
+        self.identity_deps = {}
         vm = self.context.get_module(module)
         st = etree.Element(vm.arg)
         st.set('type', vm.keyword)
@@ -1106,11 +1107,8 @@ class ModelCompiler(object):
                 # prepare self.identity_deps
                 for idn in m_statement.i_identities.values():
                     curr_idn = m_statement.arg + ':' + idn.arg
-                    base_idn = idn.search_one("base")
-                    if base_idn is None:
-                        # identity does not have a base
-                        self.identity_deps.setdefault(curr_idn, [])
-                    else:
+                    self.identity_deps.setdefault(curr_idn, [])
+                    for base_idn in idn.search("base"):
                         # identity has a base
                         base_idns = base_idn.arg.split(':')
                         if len(base_idns) > 1:
@@ -1119,11 +1117,9 @@ class ModelCompiler(object):
                             b_idn = base_idns[1] if mn is None \
                                 else mn[0] + ':' + base_idns[1]
                         else:
-                            b_idn = module + ':' + base_idn.arg
-                        if self.identity_deps.get(b_idn) is None:
-                            self.identity_deps.setdefault(b_idn, [])
-                        else:
-                            self.identity_deps[b_idn].append(curr_idn)
+                            b_idn = m_statement.arg + ':' + base_idn.arg
+                        self.identity_deps.setdefault(b_idn, [])
+                        self.identity_deps[b_idn].append(curr_idn)
 
         for child in vm.i_children:
             if child.keyword in statements.data_definition_keywords:
@@ -1350,7 +1346,11 @@ class ModelCompiler(object):
                 idn_key = my_modulename + ':' + base_idn.arg
 
             value_stmts = []
-            values = self.identity_deps.get(idn_key, [])
+            # RFC7950 section 9.10: derived directly or transitively
+            values = list(self.identity_deps.get(idn_key, []))
+            for value in values:
+                values += [v for v in self.identity_deps.get(value, [])
+                           if v not in values]
             for value in values:
                 ids = value.split(':')
                 value_stmts.append(self.module_prefixes[ids[0]] + ':' + ids[1])
-- 
2.43.0


From 00ed4467466d9b895dc8e3843b7d516eb548dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:44 +0000
Subject: [PATCH 25/63] fix: compile modules in a fixed order

The order of augmented nodes depended on the hash seed of the process.
---
 src/ncdiff/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 6009217..c592dea 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1056,7 +1056,7 @@ class ModelCompiler(object):
         required_module_set = imports | depends
         required_module_set.add(module)
         self.context.internal_reset()
-        for m in required_module_set:
+        for m in sorted(required_module_set):
             modulefile = os.path.join(self.context.repository.dirs[0],
                                       m + '.yang')
             if os.path.isfile(modulefile):
-- 
2.43.0


From c17511a27ec0ced2274e6e71948af70a786dda59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:37 +0000
Subject: [PATCH 26/63] fix: compile modules whose prefix is reserved by lxml

---
 src/ncdiff/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index c592dea..a99e850 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1097,8 +1097,13 @@ class ModelCompiler(object):
                     namespace.text = statement.arg
                     self.module_namespaces[m_statement.i_modulename] = \
                         statement.arg
-                    etree.register_namespace(
-                        m_statement.i_prefix, statement.arg)
+                    try:
+                        etree.register_namespace(
+                            m_statement.i_prefix, statement.arg)
+                    except ValueError:
+                        # Prefixes like 'ns1' are reserved by lxml
+                        logger.debug("Prefix '{}' is not registered"
+                                     .format(m_statement.i_prefix))
 
                 # prepare self.module_prefixes
                 self.module_prefixes[m_statement.i_modulename] = \
-- 
2.43.0


From e75cc48ece3124aab4d516cac2f00b7c68936ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:16 +0000
Subject: [PATCH 27/63] fix: do not hang on YANG files that cannot be read

---
 src/ncdiff/model.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index a99e850..f8d3551 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -534,21 +534,25 @@ class ContextWorker(Thread):
             except queue.Empty:
                 pass
             else:
-                with open(modulefile, 'r', encoding='utf-8') as f:
-                    text = f.read()
-                kwargs = {
-                    'ref': modulefile,
-                    'text': text,
-                }
-                if 'primary_module' in varnames:
-                    kwargs['primary_module'] = True
-                if 'format' in varnames:
-                    kwargs['format'] = 'yang'
-                if 'in_format' in varnames:
-                    kwargs['in_format'] = 'yang'
-                module_statement = self.context.add_module(**kwargs)
-                if module_statement is not None:
-                    self.context.update_dependencies(module_statement)
+                try:
+                    with open(modulefile, 'r', encoding='utf-8') as f:
+                        text = f.read()
+                    kwargs = {
+                        'ref': modulefile,
+                        'text': text,
+                    }
+                    if 'primary_module' in varnames:
+                        kwargs['primary_module'] = True
+                    if 'format' in varnames:
+                        kwargs['format'] = 'yang'
+                    if 'in_format' in varnames:
+                        kwargs['in_format'] = 'yang'
+                    module_statement = self.context.add_module(**kwargs)
+                    if module_statement is not None:
+                        self.context.update_dependencies(module_statement)
+                except Exception:
+                    logger.exception('Got error while reading {}'
+                                     .format(modulefile))
                 self.context.modulefile_queue.task_done()
         logger.debug('Thread {} exits'.format(current_thread().name))
 
-- 
2.43.0


From be8bbb9009975f6c8f9903093ca49505d60f56c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:28 +0000
Subject: [PATCH 28/63] fix: mark modified containers, lists and choices in
 ModelDiff

---
 src/ncdiff/model.py | 49 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index f8d3551..bddc520 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1629,7 +1629,9 @@ class ModelDiff(object):
                     if child.attrib['type'] in ['leaf-list', 'leaf']:
                         ModelDiff.copy_node(ret, child, 'modified')
                     else:
-                        ret_child = ModelDiff.copy_node(ret, child, '')
+                        msg = '' if ModelDiff.attrib_equal(peer, child) \
+                            else 'modified'
+                        ret_child = ModelDiff.copy_node(ret, child, msg)
                         ModelDiff.compare_nodes(peer, child, ret_child)
         for child in node1:
             peer = ModelDiff.get_peer(child.tag, node2)
@@ -1758,6 +1760,35 @@ class ModelDiff(object):
         else:
             return peers[0]
 
+    @staticmethod
+    def attrib_equal(node1, node2):
+        '''attrib_equal
+
+        Low-level api: Evaluate whether two nodes have same attributes. Cases
+        of a choice are its children, so the list of cases is not considered.
+
+        Parameters
+        ----------
+
+        node1 : `Element`
+            A node in a model tree.
+
+        node2 : `Element`
+            A node in another model tree.
+
+        Returns
+        -------
+
+        bool
+            True if attributes of node1 and node2 are equal.
+        '''
+
+        def get_attrib(node):
+            return {k: v for k, v in node.attrib.items()
+                    if k != 'values' or node.get('type') != 'choice'}
+
+        return get_attrib(node1) == get_attrib(node2)
+
     @staticmethod
     def node_equal(node1, node2):
         '''node_equal
@@ -1851,16 +1882,10 @@ class ModelDiff(object):
         '''
 
         for child in list(parent):
-            diff = child.get('diff')
-            type = child.get('type')
-            if diff and diff != msg:
-                parent.remove(child)
-            elif (
-                type == 'container' or
-                type == 'list' or
-                type == 'choice' or
-                type == 'case'
-            ):
-                if ModelDiff.trim(child, msg):
+            empty = ModelDiff.trim(child, msg)
+            if child.get('diff') != msg:
+                if empty:
                     parent.remove(child)
+                else:
+                    child.attrib.pop('diff', None)
         return len(list(parent)) == 0
-- 
2.43.0


From f7f27de499244df0d5aeb2aed924d4345417131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:22 +0000
Subject: [PATCH 29/63] fix: recognize all YANG identifiers in capabilities

---
 src/ncdiff/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 9c0c3c1..544de36 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -202,7 +202,7 @@ class ModelDevice(manager.Manager):
                         "'ietf-yang-library':\n{}".format(reply))
 
         # RFC6020 section 5.6.4
-        regexp_str = r'module=([a-zA-Z0-9-]+)\&{0,1}'
+        regexp_str = r'module=([a-zA-Z0-9_.-]+)\&{0,1}'
         modules = []
         for capability in iter(self.server_capabilities):
             match = re.search(regexp_str, capability)
-- 
2.43.0


From e4a65c721529be216afda0402466c3a576d5253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:22 +0000
Subject: [PATCH 30/63] fix: read the module names of a YANG library reply

---
 src/ncdiff/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 544de36..2140959 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -179,7 +179,8 @@ class ModelDevice(manager.Manager):
         # RFC7950 section 5.6.4
         if [c for c in self.server_capabilities
                 if c[:len(YANG_LIB_1_0)] == YANG_LIB_1_0]:
-            n = {'nc': nc_url, 'yanglib': YANG_LIB}
+            n = {'nc': nc_url,
+                 'yanglib': 'urn:ietf:params:xml:ns:yang:ietf-yang-library'}
             p = '/nc:rpc-reply/nc:data/yanglib:modules-state' \
                 '/yanglib:module/yanglib:name'
             try:
-- 
2.43.0


From 01669cffbfaff2b1e572475aca39e8ee988a5ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:05 +0000
Subject: [PATCH 31/63] fix: scan folders that have no readable YANG files

---
 src/ncdiff/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index bddc520..b1b5f2f 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -710,6 +710,8 @@ class CompilerContext(Context):
         self.dependencies = read_xml(dependencies_file)
 
     def load_context(self):
+        if self.dependencies is None:
+            self.dependencies = etree.Element('modules')
         self.modulefile_queue = queue.Queue()
         for filename in os.listdir(self.repository.dirs[0]):
             if filename.lower().endswith('.yang'):
-- 
2.43.0


From e92cd894aef1454fe6c9f02e6f16723af213cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:05 +0000
Subject: [PATCH 32/63] fix: download again after an interrupted cleanup

---
 src/ncdiff/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index b1b5f2f..8adf741 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -832,7 +832,10 @@ class ModelDownloader(object):
                         .format(self.yang_capabilities))
             return
 
-        # clean up folder self.dir_yang
+        # clean up folder self.dir_yang. File self.yang_capabilities goes first,
+        # otherwise an interrupted cleanup would look like a complete folder.
+        if os.path.isfile(self.yang_capabilities):
+            os.remove(self.yang_capabilities)
         for root, dirs, files in os.walk(self.dir_yang):
             for f in files:
                 os.remove(os.path.join(root, f))
-- 
2.43.0


From dfde4c3ed662753d1d798ab0d0a8d8077e1b2580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:05 +0000
Subject: [PATCH 33/63] fix: do not regard a folder as complete after a failed
 download

---
 src/ncdiff/model.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 8adf741..3fafbff 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -796,6 +796,7 @@ class ModelDownloader(object):
         self.context = CompilerContext(repository=repo)
         self.download_queue = queue.Queue()
         self.num_threads = 2
+        self.incomplete = False
 
     @property
     def need_download(self):
@@ -841,6 +842,7 @@ class ModelDownloader(object):
                 os.remove(os.path.join(root, f))
 
         # download all
+        self.incomplete = False
         self.to_be_downloaded = set(self.device.models_loadable)
         self.context.dependencies = etree.Element('modules')
         for module in sorted(list(self.to_be_downloaded)):
@@ -853,9 +855,13 @@ class ModelDownloader(object):
         self.download_queue.join()
 
         # write self.yang_capabilities
-        capabilities = '\n'.join(sorted(list(self.device.server_capabilities)))
-        with open(self.yang_capabilities, 'wb') as f:
-            f.write(capabilities.encode('utf-8'))
+        if self.incomplete:
+            logger.warning('Download of models is incomplete')
+        else:
+            capabilities = \
+                '\n'.join(sorted(list(self.device.server_capabilities)))
+            with open(self.yang_capabilities, 'wb') as f:
+                f.write(capabilities.encode('utf-8'))
 
         # write dependencies
         self.context.write_dependencies()
@@ -889,6 +895,9 @@ class ModelDownloader(object):
             logger.warning("Module or submodule '{}' cannot be downloaded"
                            .format(module))
             return
+        except Exception:
+            self.incomplete = True
+            raise
         if reply.ok:
             varnames = Context.add_module.__code__.co_varnames
             fname = os.path.join(self.dir_yang, module+'.yang')
-- 
2.43.0


From 92015ff448ee1200faf7752d517d0e96e119739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:35 +0000
Subject: [PATCH 34/63] fix: accept Config and ConfigDelta as any config
 argument of edit_config

---
 src/ncdiff/manager.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 2140959..3485337 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -7,7 +7,7 @@ from ncclient import manager, operations, transport, xml_
 from ncclient.devices.default import DefaultDeviceHandler
 
 from .model import Model, ModelDownloader, ModelCompiler
-from .config import Config
+from .config import Config, ConfigDelta
 from .errors import ModelError, ModelMissing, ConfigError
 from .composer import Tag, Composer
 
@@ -391,6 +391,14 @@ class ModelDevice(manager.Manager):
                    node.get('type') not in ['choice', 'case']:
                     return node.get('access')
 
+        def get_config_ele(config):
+            if isinstance(config, Config):
+                return config.ele
+            elif isinstance(config, ConfigDelta):
+                return config.nc
+            else:
+                return config
+
         # allow for operation string type
         if type(operation) is str:
             try:
@@ -428,10 +436,10 @@ class ModelDevice(manager.Manager):
                                      'models: {}'.format(str(models)[1:-1]))
                 kwargs['filter'] = build_filter(models, roots)
         elif cls == operations.edit.EditConfig:
-            if args and isinstance(args[0], Config):
-                args_list = list(args)
-                args_list[0] = args[0].ele
-                args = tuple(args_list)
+            if args:
+                args = (get_config_ele(args[0]),) + tuple(args[1:])
+            elif 'config' in kwargs:
+                kwargs['config'] = get_config_ele(kwargs['config'])
             if 'target' not in kwargs and \
                'urn:ietf:params:netconf:capability:candidate:1.0' not in \
                self.server_capabilities and \
-- 
2.43.0


From a820a91f4c7e29c1049358a17431ec11e368c0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:35 +0000
Subject: [PATCH 35/63] fix: send edit-config content that has comments

---
 src/ncdiff/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ncdiff/__init__.py b/src/ncdiff/__init__.py
index 8b26785..948b097 100755
--- a/src/ncdiff/__init__.py
+++ b/src/ncdiff/__init__.py
@@ -12,6 +12,7 @@ __copyright__ = 'Cisco Systems, Inc.'
 
 import os
 import pprint
+from copy import deepcopy
 from lxml import etree
 from ncclient import operations, transport
 from pyang import error, yang_parser, statements
@@ -99,6 +100,10 @@ if getattr(transport, 'notify', None):
 def _append(self, element):
     def recreate(parent_src, parent_dst):
         for child_src in parent_src:
+            if not isinstance(child_src.tag, str):
+                # comments and processing instructions
+                parent_dst.append(deepcopy(child_src))
+                continue
             child_dst = etree.SubElement(parent_dst,
                                          child_src.tag,
                                          attrib=child_src.attrib,
-- 
2.43.0


From 5b7d2e12a5f79cd63a5d8245b4d19447f2d33890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:49 +0000
Subject: [PATCH 36/63] fix: do not ask for notifications in a get filter

---
 src/ncdiff/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 3485337..4a01a40 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -388,7 +388,7 @@ class ModelDevice(manager.Manager):
                 ancestors = list(node.iterancestors())[:-1]
                 if all(n.get('type') in ['choice', 'case']
                        for n in ancestors) and \
-                   node.get('type') not in ['choice', 'case']:
+                   node.get('type') not in ['choice', 'case', 'notification']:
                     return node.get('access')
 
         def get_config_ele(config):
-- 
2.43.0


From 0179d67d534c2513afa18bcbfc16b2551c0f3060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 37/63] fix: recognize prefix nc in xpath() and filter() of a
 config

---
 src/ncdiff/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index b0db5b6..4694166 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -317,6 +317,7 @@ class Config(object):
         if 'namespaces' not in kwargs:
             kwargs['namespaces'] = {i[1]: i[2] for i in self.device.namespaces
                                     if i[1] is not None}
+            kwargs['namespaces'].setdefault('nc', nc_url)
         return self.ele.xpath(*args, **kwargs)
 
     def filter(self, *args, **kwargs):
-- 
2.43.0


From 7cda32a9e93af332a8637dde78352a222ac4d28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 38/63] fix: compose Xpaths of instances whose values are empty
 or have quotes

---
 src/ncdiff/composer.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/composer.py b/src/ncdiff/composer.py
index 3053a97..57ad7eb 100755
--- a/src/ncdiff/composer.py
+++ b/src/ncdiff/composer.py
@@ -18,6 +18,17 @@ def split_tag(tag, tag_type):
         return ('', tag)
 
 
+def quote(text):
+    if '"' not in text:
+        return '"{}"'.format(text)
+    elif "'" not in text:
+        return "'{}'".format(text)
+    else:
+        # XPath literals cannot have both kinds of quotes
+        return 'concat({})'.format(
+            ", '\"', ".join('"{}"'.format(t) for t in text.split('"')))
+
+
 class Tag(object):
     '''Tag
 
@@ -204,7 +215,10 @@ class Composer(object):
                     if n.schema_node is not None:
                         if n.schema_node.get('type') == 'leaf-list' and \
                            not (index == len(nodes)-1 and not instance):
-                            ret += '[text()="{}"]'.format(node.text)
+                            if node.text:
+                                ret += '[text()={}]'.format(quote(node.text))
+                            else:
+                                ret += '[not(text())]'
                         elif (
                             n.schema_node.get('type') == 'list' and
                             not (index == len(nodes)-1 and not instance)
@@ -214,8 +228,8 @@ class Composer(object):
                                                              dst=type)[1]
                                 key_node = node.find(key)
                                 if key_node is not None:
-                                    ret += '[{}="{}"]'.format(id,
-                                                              key_node.text)
+                                    ret += '[{}={}]'.format(
+                                        id, quote(key_node.text or ''))
             return ret
 
         nodes = list(reversed(list(self.node.iterancestors())))[1:] + \
-- 
2.43.0


From 261a05ffecde46f0d42f3cd08fddd48a3be1f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:20 +0000
Subject: [PATCH 39/63] fix: get statements of config nodes in lists, choices
 and cases

---
 src/ncdiff/manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 4a01a40..b1a3052 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -756,6 +756,7 @@ class ModelDevice(manager.Manager):
         '''
         if self.compiler is None:
             return None
+        node = Composer(self, node).schema_node
         return self.compiler.context.get_statement(
             modulename=self.get_model_name(node),
             xpath=self.get_xpath(node, type=Tag.LXML_XPATH, instance=False),
-- 
2.43.0


From 7468b0ea10c9f5cc562354d6ab76edbf45df6a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:20 +0000
Subject: [PATCH 40/63] fix: find the model of schema nodes in a choice at the
 top level

---
 src/ncdiff/composer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ncdiff/composer.py b/src/ncdiff/composer.py
index 57ad7eb..b72ef1c 100755
--- a/src/ncdiff/composer.py
+++ b/src/ncdiff/composer.py
@@ -116,6 +116,11 @@ class Composer(object):
         if self.path[0] in self.device.roots:
             return self.device.roots[self.path[0]]
         else:
+            # the first node in a schema tree can be a choice
+            tree = self.node.getroottree().getroot()
+            for model in self.device.models.values():
+                if model.tree is tree:
+                    return model.name
             ret = re.search(Tag.BRACE[0], self.path[0])
             if ret:
                 url_to_name = {i[2]: i[0] for i in self.device.namespaces
-- 
2.43.0


From 4d471b6dc441e9bd2fb99430739c470ff9eb6e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:13 +0000
Subject: [PATCH 41/63] fix: check model compatibility when a config is added
 to a delta

---
 src/ncdiff/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 4694166..ff050a8 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -788,7 +788,7 @@ class ConfigDelta(object):
 
     def __add__(self, other):
         if isinstance(other, Config):
-            return other + self.nc
+            return other + self
 
     def __sub__(self, other):
         return NotImplemented
-- 
2.43.0


From ae3a8a888bc0e76f3e156440c471d909ac79e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:43 +0000
Subject: [PATCH 42/63] fix: keep prefixes of augmented descendants in YTOOL
 paths

---
 src/ncdiff/composer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/composer.py b/src/ncdiff/composer.py
index b72ef1c..d1acdf0 100755
--- a/src/ncdiff/composer.py
+++ b/src/ncdiff/composer.py
@@ -212,8 +212,10 @@ class Composer(object):
         def convert(default_ns, nodes, type):
             ret = ''
             for index, node in enumerate(nodes):
-                default_ns, id = self.device.convert_tag(default_ns, node.tag,
-                                                         dst=type)
+                tag_ns, id = self.device.convert_tag(default_ns, node.tag,
+                                                     dst=type)
+                if type[1] != Tag.OMIT_BY_MODULE:
+                    default_ns = tag_ns
                 ret += '/' + id
                 if self.is_config and type != Tag.YTOOL:
                     n = Composer(self.device, node)
-- 
2.43.0


From a4c80547a3e77a4e8df171f81b2361846d153cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:57 +0000
Subject: [PATCH 43/63] fix: declare prefixes that insertion anchors need

---
 src/ncdiff/netconf.py | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 67b5af0..4fe2abd 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -238,7 +238,10 @@ class NetconfCalculator(BaseCalculator):
     def sub(self):
         ele1 = deepcopy(self.etree1)
         ele2 = deepcopy(self.etree2)
-        if _mixes_namespaces(ele1) or _mixes_namespaces(ele2):
+        if (
+            _mixes_namespaces(ele1) or _mixes_namespaces(ele2) or
+            self._orders_references(ele1)
+        ):
             ele1, ele2 = self._unify_prefixes(ele1, ele2)
         if self.diff_type == 'replace' and self.replace_depth == 0:
             self.get_config_replace(ele1, ele2)
@@ -253,6 +256,40 @@ class NetconfCalculator(BaseCalculator):
             self.add_attribute_at_depth(ele1, self.replace_depth+1, 'operation', 'replace')
         return ele1
 
+    def _orders_references(self, tree):
+        '''_orders_references
+
+        Low-level api: Return True when the tree has list or leaf-list entries
+        that are ordered by user and identified by values which rely on
+        prefixes. These values are copied to attributes of other entries.
+
+        Parameters
+        ----------
+
+        tree : `Element`
+            Root of a config tree.
+
+        Returns
+        -------
+
+        bool
+            True if there are such entries.
+        '''
+
+        for node in tree.iterdescendants():
+            s_node = self.device.get_schema_node(node)
+            if s_node.get('ordered-by') != 'user':
+                continue
+            if s_node.get('type') == 'leaf-list':
+                s_nodes = [s_node]
+            else:
+                s_nodes = [s_node.find(key)
+                           for key in self._get_list_keys(s_node)]
+            if any(get_base_type(s) in ['identityref', 'instance-identifier']
+                   for s in s_nodes):
+                return True
+        return False
+
     def _unify_prefixes(self, *trees):
         '''_unify_prefixes
 
-- 
2.43.0


From e46061f28d8cbd5db2e5aa6cdfbe747dea44e60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:54 +0000
Subject: [PATCH 44/63] fix: separate list keys by any white space

---
 src/ncdiff/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 3fafbff..bd531ea 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1174,7 +1174,8 @@ class ModelCompiler(object):
         if child.keyword == 'list':
             sm = child.search_one('key')
             if sm is not None:
-                n.set('key', sm.arg)
+                # keys may be separated by any white space
+                n.set('key', ' '.join(sm.arg.split()))
             sm = child.search_one('ordered-by')
             if sm is not None and sm.arg == 'user':
                 n.set('ordered-by', 'user')
-- 
2.43.0


From b5870726ad50000f23aa08c42c7e66d007a77809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:23 +0000
Subject: [PATCH 45/63] fix: list the values of restricted enumerations

---
 src/ncdiff/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index bd531ea..579dca6 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1339,7 +1339,8 @@ class ModelCompiler(object):
             return 'true|false'
         if type_statement.arg == 'union':
             return self.type_union_values(type_statement)
-        if type_statement.arg == 'enumeration':
+        if type_statement.search_one('enum') is not None:
+            # type enumeration, or a typedef that is restricted
             return '|'.join([e.arg for e in type_statement.search('enum')])
         if type_statement.arg == 'identityref':
             return self.type_identityref_values(type_statement)
-- 
2.43.0


From 1bf9b1c9f468f44eb897f703b37814a4194a4a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:23 +0000
Subject: [PATCH 46/63] fix: find bases of identities by prefixes of submodules

---
 src/ncdiff/model.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 579dca6..c4b106c 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1133,14 +1133,7 @@ class ModelCompiler(object):
                     self.identity_deps.setdefault(curr_idn, [])
                     for base_idn in idn.search("base"):
                         # identity has a base
-                        base_idns = base_idn.arg.split(':')
-                        if len(base_idns) > 1:
-                            # base is located in another module
-                            mn = m_statement.i_prefixes.get(base_idns[0])
-                            b_idn = base_idns[1] if mn is None \
-                                else mn[0] + ':' + base_idns[1]
-                        else:
-                            b_idn = m_statement.arg + ':' + base_idn.arg
+                        b_idn = self.get_base_identity(base_idn)
                         self.identity_deps.setdefault(b_idn, [])
                         self.identity_deps[b_idn].append(curr_idn)
 
@@ -1354,21 +1347,23 @@ class ModelCompiler(object):
                 vlist.append(v)
         return '|'.join(vlist)
 
+    @staticmethod
+    def get_base_identity(base_statement):
+        # prefixes are those of the module or submodule of the statement
+        module = base_statement.i_module
+        prefix, _, name = base_statement.arg.rpartition(':')
+        if prefix in ['', module.i_prefix]:
+            return module.i_modulename + ':' + name
+        elif prefix in module.i_prefixes:
+            return module.i_prefixes[prefix][0] + ':' + name
+        else:
+            return name
+
     def type_identityref_values(self, type_statement):
         base_idn = type_statement.search_one('base')
         if base_idn:
             # identity has a base
-            base_idns = base_idn.arg.split(':')
-            my_modulename = type_statement.i_module.i_modulename
-            if len(base_idns) > 1:
-                modulename = \
-                    type_statement.i_module.i_prefixes.get(base_idns[0])
-                if modulename is None:
-                    return ''
-                else:
-                    idn_key = modulename[0] + ':' + base_idns[1]
-            else:
-                idn_key = my_modulename + ':' + base_idn.arg
+            idn_key = self.get_base_identity(base_idn)
 
             value_stmts = []
             # RFC7950 section 9.10: derived directly or transitively
-- 
2.43.0


From 76d38d3dc749ae6b827a2e105f8626f16f5232b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:23 +0000
Subject: [PATCH 47/63] fix: list identities derived from all bases of an
 identityref

---
 src/ncdiff/model.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index c4b106c..a465b86 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1360,23 +1360,23 @@ class ModelCompiler(object):
             return name
 
     def type_identityref_values(self, type_statement):
-        base_idn = type_statement.search_one('base')
-        if base_idn:
+        common = None
+        for base_idn in type_statement.search('base'):
             # identity has a base
             idn_key = self.get_base_identity(base_idn)
 
-            value_stmts = []
             # RFC7950 section 9.10: derived directly or transitively
             values = list(self.identity_deps.get(idn_key, []))
             for value in values:
                 values += [v for v in self.identity_deps.get(value, [])
                            if v not in values]
-            for value in values:
-                ids = value.split(':')
-                value_stmts.append(self.module_prefixes[ids[0]] + ':' + ids[1])
-            if values:
-                return '|'.join(value_stmts)
-        return ''
+            # RFC7950 section 9.10.2: derived from all base identities
+            common = [v for v in values if common is None or v in common]
+        value_stmts = []
+        for value in common or []:
+            ids = value.split(':')
+            value_stmts.append(self.module_prefixes[ids[0]] + ':' + ids[1])
+        return '|'.join(value_stmts)
 
 
 class ModelDiff(object):
-- 
2.43.0


From 2d6671de7b964fecaf45c53afa52fc7485ea6742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:33 +0000
Subject: [PATCH 48/63] fix: accept a positional target of edit_config

---
 src/ncdiff/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index b1a3052..c2fbd0f 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -440,7 +440,7 @@ class ModelDevice(manager.Manager):
                 args = (get_config_ele(args[0]),) + tuple(args[1:])
             elif 'config' in kwargs:
                 kwargs['config'] = get_config_ele(kwargs['config'])
-            if 'target' not in kwargs and \
+            if 'target' not in kwargs and len(args) < 3 and \
                'urn:ietf:params:netconf:capability:candidate:1.0' not in \
                self.server_capabilities and \
                'urn:ietf:params:netconf:capability:writable-running:1.0' in \
-- 
2.43.0


From 4b9df635ab96e28af7eb16737bc2f6b50c010d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:33 +0000
Subject: [PATCH 49/63] fix: read namespaces again when models are scanned
 again

---
 src/ncdiff/manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index c2fbd0f..93f3f1d 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -273,6 +273,7 @@ class ModelDevice(manager.Manager):
             d = ModelDownloader(self, folder)
             d.download_all(check_before_download=(download == 'check'))
         self.compiler = ModelCompiler(folder)
+        self._namespaces = None
 
     def load_model(self, model):
         '''load_model
-- 
2.43.0


From 417059a60ebbbee6e0d1c81e2ccb223fa778d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:54 +0000
Subject: [PATCH 50/63] fix: mark mandatory anyxml and anydata nodes

---
 src/ncdiff/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index a465b86..c35f876 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1183,6 +1183,10 @@ class ModelCompiler(object):
             cases = [c.arg for c in child.search('case')]
             if cases:
                 n.set('values', '|'.join(cases))
+        elif child.keyword in ['anyxml', 'anydata']:
+            sm = child.search_one('mandatory')
+            if sm is not None and sm.arg == 'true':
+                n.set('mandatory', 'true')
         elif child.keyword in ['leaf', 'leaf-list']:
             self.set_leaf_datatype_value(child, n)
             sm = child.search_one('mandatory')
-- 
2.43.0


From 890492491c4299bf9940c7c666f3889a0bd15353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:29 +0000
Subject: [PATCH 51/63] fix: load compiled model files that have an encoding
 declaration

---
 src/ncdiff/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 93f3f1d..f4eb66a 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -311,7 +311,7 @@ class ModelDevice(manager.Manager):
             file_name, file_ext = os.path.splitext(model)
             if file_ext.lower() == '.xml':
                 logger.debug('Read model file {}'.format(model))
-                with open(model, 'r') as f:
+                with open(model, 'rb') as f:
                     xml = f.read()
                 parser = etree.XMLParser(remove_blank_text=True)
                 tree = etree.XML(xml, parser)
-- 
2.43.0


From d86e4682f831bda1830ec2eb75ea9ae51be9fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:59 +0000
Subject: [PATCH 52/63] fix: name all namespaces in ns when models share a
 prefix

---
 src/ncdiff/manager.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index f4eb66a..45d4cf5 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -1022,11 +1022,16 @@ class ModelDevice(manager.Manager):
         urls = set()
         for node in root.iter():
             urls.update([u for p, u in node.nsmap.items()])
-        ret = {url: get_prefix(url) for url in urls}
+        ret = {}
         i = 0
-        for url in [url for url in ret if ret[url] is None]:
-            logger.warning('{} cannot be found in namespaces of any ' \
-                           'models'.format(url))
-            ret[url] = 'ns{:02d}'.format(i)
-            i += 1
-        return {p: u for u, p in ret.items()}
+        # special namespaces go first, as different models may share a prefix
+        for url in sorted(urls, key=lambda u: (u not in special_prefixes, u)):
+            prefix = get_prefix(url)
+            if prefix is None:
+                logger.warning('{} cannot be found in namespaces of any ' \
+                               'models'.format(url))
+            while prefix is None or prefix in ret:
+                prefix = 'ns{:02d}'.format(i)
+                i += 1
+            ret[prefix] = url
+        return ret
-- 
2.43.0


From 21e1075a0dace89493016edb3b7b4fc7e9c2d756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:54 +0000
Subject: [PATCH 53/63] fix: do not share content when a config is made from
 another one

---
 src/ncdiff/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index ff050a8..7d4434a 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -78,7 +78,7 @@ class Config(object):
             self.parser = NetconfParser(self.device, config)
             self.ele = self.parser.ele
         elif isinstance(config, Config):
-            self.ele = config.ele
+            self.ele = deepcopy(config.ele)
         else:
             raise TypeError("argument 'config' must be None, XML string, "
                             "or Element, but not '{}'"
-- 
2.43.0


From 7aee5eea7f712b6575b63876abf9b626dc23d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:48 +0000
Subject: [PATCH 54/63] fix: insert list entries after ones whose keys have
 both kinds of quotes

---
 src/ncdiff/netconf.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 4fe2abd..92ab6ce 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -45,6 +45,15 @@ def _quote(text):
         return "'{}'".format(text)
 
 
+def _has_no_literal(node, keys):
+    # XPath literals cannot have both kinds of quotes, so there is no
+    # attribute key that refers to a list entry with such a key.
+    if keys == 'leaf-list':
+        return False
+    texts = [node.find(k).text or '' for k in keys]
+    return any("'" in text and '"' in text for text in texts)
+
+
 def _mixes_namespaces(tree):
     # When a node is moved, lxml may replace its prefixes with the default
     # namespace of its new parent. A different default namespace declared at
@@ -579,11 +588,14 @@ class NetconfCalculator(BaseCalculator):
                 # in lxml. See https://bugs.launchpad.net/lxml/+bug/555602
                 # if 'yang' not in item.nsmap:
                 #     item.nsmap['yang'] = yang_url
+                precursor = sequence[i - 1]
                 if i == 0:
                     item.set(insert_tag, 'first')
+                elif _has_no_literal(precursor, ordered_by_user[tag]):
+                    # the rest of the sequence will follow
+                    item.set(insert_tag, 'last')
                 else:
                     item.set(insert_tag, 'after')
-                    precursor = sequence[i - 1]
                     if ordered_by_user[tag] == 'leaf-list':
                         item.set(value_tag, precursor.text or '')
                     else:
@@ -1534,11 +1546,14 @@ class NetconfCalculator(BaseCalculator):
                     # if 'yang' not in item.nsmap:
                     #     item.nsmap['yang'] = yang_url
                     i = sequence.index(item)
+                    precursor = sequence[i - 1]
                     if i == 0:
                         item.set(insert_tag, 'first')
+                    elif _has_no_literal(precursor, ordered_by_user[tag]):
+                        # the rest of the sequence will follow
+                        item.set(insert_tag, 'last')
                     else:
                         item.set(insert_tag, 'after')
-                        precursor = sequence[i - 1]
                         if ordered_by_user[tag] == 'leaf-list':
                             item.set(value_tag, precursor.text or '')
                         else:
-- 
2.43.0


From cc6ad19b4d0b3d3a9c58f38d1d4469cdaef3749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:32 +0000
Subject: [PATCH 55/63] fix: delete instance-identifiers in leaf-lists

---
 src/ncdiff/netconf.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 92ab6ce..379267b 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -249,7 +249,7 @@ class NetconfCalculator(BaseCalculator):
         ele2 = deepcopy(self.etree2)
         if (
             _mixes_namespaces(ele1) or _mixes_namespaces(ele2) or
-            self._orders_references(ele1)
+            self._copies_references(ele1) or self._copies_references(ele2)
         ):
             ele1, ele2 = self._unify_prefixes(ele1, ele2)
         if self.diff_type == 'replace' and self.replace_depth == 0:
@@ -265,12 +265,13 @@ class NetconfCalculator(BaseCalculator):
             self.add_attribute_at_depth(ele1, self.replace_depth+1, 'operation', 'replace')
         return ele1
 
-    def _orders_references(self, tree):
-        '''_orders_references
+    def _copies_references(self, tree):
+        '''_copies_references
 
         Low-level api: Return True when the tree has list or leaf-list entries
-        that are ordered by user and identified by values which rely on
-        prefixes. These values are copied to attributes of other entries.
+        that are identified by values which rely on prefixes. These values are
+        copied to attributes of other entries if they are ordered by user, and
+        to entries that will be deleted.
 
         Parameters
         ----------
@@ -287,10 +288,10 @@ class NetconfCalculator(BaseCalculator):
 
         for node in tree.iterdescendants():
             s_node = self.device.get_schema_node(node)
-            if s_node.get('ordered-by') != 'user':
-                continue
             if s_node.get('type') == 'leaf-list':
                 s_nodes = [s_node]
+            elif s_node.get('ordered-by') != 'user':
+                continue
             else:
                 s_nodes = [s_node.find(key)
                            for key in self._get_list_keys(s_node)]
-- 
2.43.0


From 4f0c44af13b9b3e7dba67cc824d81c274e471af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:29 +0000
Subject: [PATCH 56/63] fix: trim identityrefs that equal their default
 whatever prefixes are used

---
 src/ncdiff/config.py | 40 ++++++++++++++++++++++++++++++++++++++--
 src/ncdiff/model.py  | 20 +++++++++++++++++++-
 2 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 7d4434a..00e2811 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -10,6 +10,7 @@ from .model import ModelDiff
 from .errors import ConfigError, ModelMissing, ModelIncompatible
 from .netconf import NetconfParser, NetconfCalculator, _copy_element
 from .composer import Composer
+from .ref import IdentityRef, get_base_type
 from .calculator import BaseCalculator
 
 # create a logger for this module
@@ -406,7 +407,8 @@ class Config(object):
                 child_schema_node.get('type') == 'leaf' and
                 child_schema_node.get('is_key') is None and
                 child_schema_node.get('default') is not None and
-                child.text == child_schema_node.get('default')
+                self._get_value(child, child_schema_node) ==
+                child_schema_node.get('default')
             ):
                 node.remove(child)
 
@@ -420,7 +422,8 @@ class Config(object):
                 child.tag not in leaf_list_defaults
             ):
                 defaults = child_schema_node.get('default').split(',')
-                values = [n.text for n in node.findall(child.tag)]
+                values = [self._get_value(n, child_schema_node)
+                          for n in node.findall(child.tag)]
                 if (
                     child_schema_node.get('ordered-by', 'system') == 'user' and
                     values == defaults or
@@ -437,6 +440,39 @@ class Config(object):
                 for child in node.findall(tag):
                     node.remove(child)
 
+    def _get_value(self, node, schema_node):
+        '''_get_value
+
+        Low-level api: Get the value of a leaf or leaf-list node, as default
+        values are written in models.
+
+        Parameters
+        ----------
+
+        node : `Element`
+            An Element node in config tree.
+
+        schema_node : `Element`
+            Schema node of the node.
+
+        Returns
+        -------
+
+        str
+            The text of the node. Identities have the prefixes of the model.
+        '''
+
+        if get_base_type(schema_node) != 'identityref' or not node.text:
+            return node.text
+        try:
+            url, name = IdentityRef(self.device, node) \
+                .parse_prefixed_id(node.text, node)
+        except ConfigError:
+            return node.text
+        model = self.device.models[self.device.get_model_name(schema_node)]
+        return model.url_to_prefix('{' + url + '}' + name) \
+            if url in model.urls else '{' + url + '}' + name
+
     def _validate_node(self, node):
         '''_validate_node
 
diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index c35f876..2132d5a 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1163,7 +1163,8 @@ class ModelCompiler(object):
             n.set('status', sm.arg)
         sm = child.search('default')
         if sm is not None and len(sm) > 0:
-            n.set('default', ",".join(map(lambda x: x.arg, sm)))
+            n.set('default', ",".join([self.get_default(child, d)
+                                       for d in sm]))
         if child.keyword == 'list':
             sm = child.search_one('key')
             if sm is not None:
@@ -1351,6 +1352,23 @@ class ModelCompiler(object):
                 vlist.append(v)
         return '|'.join(vlist)
 
+    def get_default(self, statement, default_statement):
+        value = default_statement.arg
+        if (
+            statement.keyword in ['leaf', 'leaf-list'] and
+            self.get_base_type(statement) == 'identityref'
+        ):
+            # local prefixes mean nothing to others
+            module = default_statement.i_orig_module
+            prefix, _, name = value.rpartition(':')
+            if prefix in ['', module.i_prefix]:
+                modulename = module.i_modulename
+            else:
+                modulename = module.i_prefixes.get(prefix, (None, None))[0]
+            if modulename in self.module_prefixes:
+                return self.module_prefixes[modulename] + ':' + name
+        return value
+
     @staticmethod
     def get_base_identity(base_statement):
         # prefixes are those of the module or submodule of the statement
-- 
2.43.0


From 2488550aaffec6b6e96d5f08c00467d66fddeb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 57/63] fix: take dots in the prefix of a model literally

---
 src/ncdiff/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 2132d5a..e34845e 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -471,7 +471,7 @@ class Model(object):
             prefix.
         '''
 
-        reg_str = '^' + self.prefix + ':(.+)$'
+        reg_str = '^' + re.escape(self.prefix) + ':(.+)$'
         ret = re.search(reg_str, id)
         if ret:
             return ret.group(1)
-- 
2.43.0


From 2add74fca8b0375826dd72a690eba263cb65560c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:20 +0000
Subject: [PATCH 58/63] fix: ignore white space in predicates of
 instance-identifiers

---
 src/ncdiff/ref.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index 2637528..61c9b1f 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -169,11 +169,17 @@ class InstanceIdentifier(IdentityRef):
         '''
 
         IdentityRef.__init__(self, device, node, to_node=to_node)
-        self.str_list = [(self.node.text, 0, self.node.text)]
+        self.str_list = [(self.text, 0, self.text)]
+
+    @property
+    def text(self):
+        # RFC7950 section 14: white space in predicates means nothing
+        return re.sub(r'''("[^"]*"|'[^']*')|\s+''',
+                      lambda m: m.group(1) or '', self.node.text)
 
     @property
     def converted(self):
-        self.str_list = [(self.node.text, 0, self.node.text)]
+        self.str_list = [(self.text, 0, self.text)]
         self.parse_quote()
         self.parse_square_bracket(to_node=self.to_node)
         self.parse_element(to_node=self.to_node)
@@ -182,7 +188,7 @@ class InstanceIdentifier(IdentityRef):
 
     @property
     def default(self):
-        self.str_list = [(self.node.text, 0, self.node.text)]
+        self.str_list = [(self.text, 0, self.text)]
         self.parse_quote()
         self.parse_square_bracket()
         self.parse_element()
-- 
2.43.0


From 45a109afa00c0159f646a7a9d2fa34f952622031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:20 +0000
Subject: [PATCH 59/63] fix: do not give positions in instance-identifiers a
 prefix

---
 src/ncdiff/ref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index 61c9b1f..707699d 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -248,7 +248,8 @@ class InstanceIdentifier(IdentityRef):
                 if piece[0] == '[' or \
                    piece[0] == ']' or \
                    piece[0] == '=' or \
-                   piece[0] == '.':
+                   piece[0] == '.' or \
+                   piece[0].isdigit():
                     new_str_list.append((piece[0], piece[1], piece[0]))
                 else:
                     url, id = self.parse_prefixed_id(piece[0], self.node)
-- 
2.43.0


From 7a7a883f7a6694f4a63c99356fc62cf559fc9902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:43 +0000
Subject: [PATCH 60/63] fix: prefixes that are declared for several namespaces
 are not free

---
 src/ncdiff/netconf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 379267b..41436fb 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -350,7 +350,8 @@ class NetconfCalculator(BaseCalculator):
         used = {}
         nodes = [node for tree in trees for node in tree.iter()]
         for node in nodes:
-            used.update(node.nsmap)
+            for prefix, url in node.nsmap.items():
+                used.setdefault(prefix, set()).add(url)
             reference = get_reference(node)
             if reference is not None:
                 urls.update(reference.default_ns.values())
@@ -360,7 +361,7 @@ class NetconfCalculator(BaseCalculator):
         for url in sorted(urls):
             prefix = self.device.convert_ns(url, src=Tag.NAMESPACE,
                                             dst=Tag.PREFIX)
-            while prefix in nsmap or used.get(prefix, url) != url:
+            while prefix in nsmap or used.get(prefix, {url}) != {url}:
                 prefix += '_'
             nsmap[prefix] = url
         probe = etree.Element('probe', nsmap=nsmap)
-- 
2.43.0


From 5c81e230884f3b6fdec342738db0a1a3c999daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:07 +0000
Subject: [PATCH 61/63] fix: do not replace exit commands inside of other
 running-config lines

---
 src/ncdiff/runningconfig.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index 60b2896..5c48051 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -411,9 +411,12 @@ class RunningConfigDiff(object):
             return ''
 
     def running2list(self, str_in_1, str_in_2):
-        for cmd in REPLACING_COMMANDS:
-            str_in_1 = str_in_1.replace(*cmd)
-            str_in_2 = str_in_2.replace(*cmd)
+        for old_cmd, new_cmd in REPLACING_COMMANDS:
+            # only lines that are this command, not the ones that mention it
+            regx = re.compile(r'^( *){}(?=\s*$)'.format(re.escape(old_cmd)),
+                              flags=re.MULTILINE)
+            str_in_1 = regx.sub(r'\g<1>' + new_cmd, str_in_1)
+            str_in_2 = regx.sub(r'\g<1>' + new_cmd, str_in_2)
         list_1 = self.config2list(str_in_1)
         list_2 = self.config2list(str_in_2)
         return self.handle_orderless(list_1, list_2, 0)
-- 
2.43.0


From 16db3c39f006e81b982214180e75d41c708cc307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:48 +0000
Subject: [PATCH 62/63] fix: keep the whole value when there is a comment
 inside of it

---
 src/ncdiff/netconf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 41436fb..5d33b04 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -77,7 +77,11 @@ def _copy_element(new_parent, element):
     if element.text is not None:
         new_child.text = element.text
     # comments and processing instructions are not config
-    for subelement in element.iterchildren(tag=etree.Element):
+    subelements = list(element.iterchildren(tag=etree.Element))
+    if len(element) > 0 and not subelements:
+        # they could be in the middle of a value
+        new_child.text = element.xpath('string()') or None
+    for subelement in subelements:
         _copy_element(new_child, subelement)
 
 
-- 
2.43.0


From eb36324b7ef85884c217cfa20a807e66d620acf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 63/63] fix: add edit-config elements that have comments

---
 src/ncdiff/netconf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 5d33b04..4c22d34 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -242,8 +242,10 @@ class NetconfCalculator(BaseCalculator):
 
     @property
     def add(self):
-        ele1, ele2 = self._unify_prefixes(deepcopy(self.etree1),
-                                          deepcopy(self.etree2))
+        ele2 = deepcopy(self.etree2)
+        # comments and processing instructions are not config
+        etree.strip_tags(ele2, etree.Comment, etree.PI)
+        ele1, ele2 = self._unify_prefixes(deepcopy(self.etree1), ele2)
         self.node_add(ele1, ele2)
         return ele1
 
-- 
2.43.0

