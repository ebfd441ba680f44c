"""Reference NETCONF <edit-config> (RFC 6241 section 7.2, RFC 7950 sections
7.5.8, 7.6.7, 7.7.9, 7.8.6, 7.9.3) on the data trees of data.py."""
import re

from lxml import etree

from .schema import NC_NS, YANG_NS
from .data import (D, BadData, parse_value, split, ident, find,
                   clear_other_cases, copy_kids)

OP = '{%s}operation' % NC_NS
INSERT = '{%s}insert' % YANG_NS
KEY = '{%s}key' % YANG_NS
VALUE = '{%s}value' % YANG_NS
OPS = ('merge', 'create', 'replace', 'delete', 'remove')


class EditError(Exception):
    """the server rejects the edit-config; tag is the RFC error"""

    def __init__(self, tag, msg):
        Exception.__init__(self, '%s: %s' % (tag, msg))
        self.tag = tag


class Server:
    """strict_np: delete of an absent / empty non-presence container is
    data-missing, create of a non-empty one is data-exists."""

    def __init__(self, schema):
        self.schema = schema
        self.stats = {}

    def note(self, what):
        self.stats[what] = self.stats.get(what, 0) + 1

    def apply(self, kids, config):
        """new tree; config is the <config> element (document order)"""
        kids = copy_kids(kids)
        for e in config.iter():
            for a in e.attrib:
                if e is config or a not in (OP, INSERT, KEY, VALUE):
                    raise EditError('unknown-attribute', '%s at %s' % (
                        a, e.tag))
        self._children(self.schema.root, kids, config, 'merge')
        return kids

    # -- helpers ---------------------------------------------------------
    def _parse_node(self, s, e):
        """D for the element itself: for a list just keys, no other kids"""
        if s.kind == 'leaf' and e.get(OP) in ('delete', 'remove'):
            return D(s)
        if s.kind in ('leaf', 'leaf-list'):
            return D(s, parse_value(self.schema, s, e))
        d = D(s)
        if s.kind == 'list':
            for k in s.key_nodes:
                ke = [c for c in e if c.tag == k.tag]
                if len(ke) != 1:
                    raise EditError('missing-element', 'key %s of %s' % (
                        k.name, s.name))
                d.kids.append(D(k, parse_value(self.schema, k, ke[0])))
        return d

    def _full(self, s, e):
        """the whole subtree, operations inside it are not looked at"""
        d = self._parse_node(s, e)
        if s.kind in ('container', 'list'):
            d.kids = []
            for c in e:
                if not isinstance(c.tag, str):
                    continue
                cs = s.child(*split(c.tag))
                if cs is None:
                    raise EditError('unknown-element', c.tag)
                x = self._full(cs, c)
                if find(d.kids, x) is not None:
                    raise EditError('bad-element', 'duplicate %s' % c.tag)
                clear_other_cases(d.kids, cs)
                d.kids.append(x)
        return d

    def _anchor(self, s, e, kids):
        if s.kind == 'leaf-list':
            v = e.get(VALUE)
            if v is None:
                raise EditError('missing-attribute', 'value')
            probe = etree.Element('x', nsmap=e.nsmap)
            probe.text = v
            val = parse_value(self.schema, s, probe)
            for x in kids:
                if x.s is s and x.val == val:
                    return x
            raise EditError('missing-instance', v)
        k = e.get(KEY)
        if k is None:
            raise EditError('missing-attribute', 'key')
        preds = re.findall(r"\[\s*([^=\]\s]+)\s*=\s*('[^']*'|\"[^\"]*\")\s*\]",
                           k)
        if ''.join(re.findall(
                r"\[\s*[^=\]\s]+\s*=\s*(?:'[^']*'|\"[^\"]*\")\s*\]",
                k)) != k or not preds:
            raise EditError('bad-attribute', 'key %r' % k)
        want = {}
        for name, lit in preds:
            if ':' in name:
                p, n = name.split(':', 1)
                if p not in e.nsmap:
                    raise EditError('bad-attribute', 'key %r' % k)
                ns = e.nsmap[p]
            else:
                ns, n = e.nsmap.get(None), name
            kn = s.child(ns, n)
            if kn is None or not kn.is_key:
                raise EditError('bad-attribute', 'key %r' % k)
            probe = etree.Element('x', nsmap=e.nsmap)
            probe.text = lit[1:-1]
            want[kn] = parse_value(self.schema, kn, probe)
        if set(want) != set(s.key_nodes):
            raise EditError('bad-attribute', 'key %r' % k)
        for x in kids:
            if x.s is s and all(y.val == want[y.s] for y in x.kids
                                if y.s in want):
                return x
        raise EditError('missing-instance', k)

    def _place(self, s, e, kids, node):
        """insert node in kids, or move it if it is there already"""
        there = any(x is node for x in kids)
        ins = e.get(INSERT) if s.kind in ('list', 'leaf-list') and s.user \
            else None
        if ins is None:
            if not there:
                kids.append(node)
            return
        self.note('insert-' + ins)
        if ins not in ('first', 'last', 'before', 'after'):
            raise EditError('bad-attribute', 'insert %r' % ins)
        anchor = None
        if ins in ('before', 'after'):
            anchor = self._anchor(s, e, kids)
            if anchor is node:
                return
        if there:
            self.note('move')
            kids[:] = [x for x in kids if x is not node]
        same = [i for i, x in enumerate(kids) if x.s is s]
        if ins == 'first':
            i = same[0] if same else len(kids)
        elif ins == 'last':
            i = same[-1] + 1 if same else len(kids)
        else:
            i = [j for j, x in enumerate(kids) if x is anchor][0]
            if ins == 'after':
                i += 1
        kids.insert(i, node)

    # -- the operation -----------------------------------------------------
    def _children(self, s, kids, e, default_op):
        for c in e:
            if not isinstance(c.tag, str):
                continue
            cs = s.child(*split(c.tag))
            if cs is None:
                raise EditError('unknown-element', c.tag)
            if cs.is_key:
                continue
            self._node(cs, kids, c, default_op)

    def _node(self, s, kids, e, default_op):
        op = e.get(OP, default_op)
        if op not in OPS:
            raise EditError('bad-attribute', 'operation %r' % op)
        if e.get(OP):
            self.note(op)
        me = self._parse_node(s, e)
        old = find(kids, me)
        np = s.kind == 'container' and not s.presence
        if op in ('delete', 'remove'):
            if old is None:
                if op == 'delete':
                    raise EditError('data-missing', s.name)
                return
            kids[:] = [x for x in kids if x is not old]
            return
        if op == 'create':
            if old is not None:
                raise EditError('data-exists', s.name)
        if old is None:
            before = len(kids)
            clear_other_cases(kids, s)
            if len(kids) != before:
                self.note('case-switch')
        if op == 'merge':
            if s.kind in ('leaf', 'leaf-list'):
                if old is None:
                    self._place(s, e, kids, me)
                else:
                    old.val = me.val
                    self._place(s, e, kids, old)
                return
            node = old if old is not None else me
            self._place(s, e, kids, node)
            self._children(s, node.kids, e, 'merge')
        else:
            new = self._full(s, e)
            if old is not None:
                i = [j for j, x in enumerate(kids) if x is old][0]
                kids[i] = new
            self._place(s, e, kids, new)
        if np and old is None and not node_kids(kids, me):
            kids[:] = [x for x in kids if ident(x) != ident(me)]
        elif np and not node_kids(kids, me):
            kids[:] = [x for x in kids if ident(x) != ident(me)]


def node_kids(kids, me):
    for x in kids:
        if ident(x) == ident(me):
            return x.kids
    return []
