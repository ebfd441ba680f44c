"""Schema AST: the independent description of a YANG schema.

A Schema is a set of modules plus a tree of SNode.  It is emitted as YANG text
for the code under test; the AST itself is what every oracle uses, so nothing
here reads what the code under test makes of the YANG.
"""

import random

YANG_NS = 'urn:ietf:params:xml:ns:yang:1'
NC_NS = 'urn:ietf:params:xml:ns:netconf:base:1.0'


class Module:
    def __init__(self, name, prefix, ns):
        self.name = name
        self.prefix = prefix
        self.ns = ns

    def __repr__(self):
        return '<Module %s>' % self.name


class Type:
    """kind: string, int, enum, boolean, empty, idref, iid, union, leafref"""

    def __init__(self, kind, arg=None):
        self.kind = kind
        self.arg = arg


class SNode:
    """kind: root, container, list, leaf, leaf-list, choice, case"""

    def __init__(self, kind, name, mod=None, children=(), type=None, keys=(),
                 user=False, presence=False, default=None, status=None,
                 config=None, mandatory=False, shorthand=False, desc=None):
        self.kind = kind
        self.name = name
        self.mod = mod
        self.type = type
        self.keys = list(keys)
        self.user = user
        self.presence = presence
        self.default = default          # str, or list of str for a leaf-list
        self.status = status
        self.config = config            # None (inherit), True, False
        self.mandatory = mandatory
        self.shorthand = shorthand      # choice child without a case statement
        self.desc = desc
        self.parent = None
        self.children = []
        for c in children:
            self.add(c)
        self._data = None
        self._byid = None

    def add(self, c):
        c.parent = self
        self.children.append(c)
        self._data = None
        self._byid = None
        return c

    # -- navigation -------------------------------------------------------
    @property
    def ns(self):
        return self.mod.ns

    @property
    def tag(self):
        return '{%s}%s' % (self.mod.ns, self.name)

    @property
    def is_key(self):
        return (self.parent is not None and self.parent.kind == 'list' and
                self.kind == 'leaf' and self.name in self.parent.keys and
                self.mod is self.parent.mod)

    @property
    def data_children(self):
        if self._data is None:
            out = []
            for c in self.children:
                if c.kind in ('choice', 'case'):
                    out += c.data_children
                else:
                    out.append(c)
            self._data = out
        return self._data

    def child(self, ns, name):
        if self._byid is None:
            self._byid = {(c.mod.ns, c.name): c for c in self.data_children}
        return self._byid.get((ns, name))

    @property
    def data_parent(self):
        p = self.parent
        while p is not None and p.kind in ('choice', 'case'):
            p = p.parent
        return p

    @property
    def cases(self):
        """[(choice, case)] from the innermost outwards, up to data parent"""
        out = []
        p = self.parent
        while p is not None and p.kind == 'case':
            out.append((p.parent, p))
            p = p.parent.parent
        return out

    @property
    def effective_config(self):
        n = self
        while n is not None:
            if n.config is not None:
                return n.config
            n = n.parent
        return True

    @property
    def key_nodes(self):
        return [self.child(self.mod.ns, k) for k in self.keys]

    def walk(self):
        for c in self.children:
            yield c
            for x in c.walk():
                yield x

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


class Identity:
    def __init__(self, mod, name, bases=()):
        self.mod = mod
        self.name = name
        self.bases = list(bases)


class Schema:
    def __init__(self, modules, roots, identities=(), revision=None,
                 imports=None, name='schema'):
        self.name = name
        self.extra = None               # rpcs and notifications
        self.spelling = None            # seed of another YANG spelling
        self.modules = list(modules)
        self.root = SNode('root', None)
        for r in roots:
            self.root.add(r)
        self.identities = list(identities)
        self.revision = revision or {}
        self._inherit_mod(self.root)
        self.by_ns = {m.ns: m for m in self.modules}
        self.by_name = {m.name: m for m in self.modules}

    def _inherit_mod(self, n):
        for c in n.children:
            if c.mod is None:
                c.mod = n.mod
            self._inherit_mod(c)

    @property
    def models(self):
        """names of modules with data roots"""
        return sorted({r.mod.name for r in self.root.children})

    def derived(self, base):
        """all identities transitively derived from base"""
        out = []
        frontier = [base]
        while frontier:
            b = frontier.pop(0)
            for i in self.identities:
                if b in i.bases and i not in out:
                    out.append(i)
                    frontier.append(i)
        return out

    # -- emission ---------------------------------------------------------
    def _augments(self):
        out = []

        def rec(n):
            for c in n.children:
                if n.kind != 'root' and c.mod is not n.mod:
                    out.append((n, c))
                else:
                    pass
                rec(c)
        rec(self.root)
        return out

    def yang(self):
        """{module name: YANG text}"""
        if self.spelling is not None:
            from .yangtext import spell
            return spell(self, random.Random(self.spelling))[0]
        return {m.name: self._module_text(m) for m in self.modules}

    def _deps(self, m):
        deps = set()
        for n, c in self._augments():
            if c.mod is m:
                p = n
                while p.kind != 'root':
                    deps.add(p.mod.name)
                    p = p.parent
        for n in self.root.walk():
            if n.mod is m and n.type is not None:
                self._type_deps(n.type, deps)
        for i in self.identities:
            if i.mod is m:
                for b in i.bases:
                    deps.add(b.mod.name)
        deps.discard(m.name)
        return sorted(deps)

    def _type_deps(self, t, deps):
        if t.kind == 'idref':
            deps.add(t.arg.mod.name)
        elif t.kind == 'union':
            for u in t.arg:
                self._type_deps(u, deps)

    def _path(self, n):
        parts = []
        while n.kind != 'root':
            parts.append('%s:%s' % (n.mod.prefix, n.name))
            n = n.parent
        return '/' + '/'.join(reversed(parts))

    def _module_text(self, m):
        o = ['module %s {' % m.name,
             '  yang-version 1.1;',
             '  namespace "%s";' % m.ns,
             '  prefix %s;' % m.prefix]
        for d in self._deps(m):
            o.append('  import %s { prefix %s; }' % (d,
                                                     self.by_name[d].prefix))
        rev = self.revision.get(m.name, '2024-01-01')
        o.append('  revision %s;' % rev)
        for i in self.identities:
            if i.mod is m:
                if i.bases:
                    o.append('  identity %s {' % i.name)
                    for b in i.bases:
                        p = '' if b.mod is m else b.mod.prefix + ':'
                        o.append('    base %s%s;' % (p, b.name))
                    o.append('  }')
                else:
                    o.append('  identity %s;' % i.name)
        for r in self.root.children:
            if r.mod is m:
                self._emit(r, m, o, 2)
        for n, c in self._augments():
            if c.mod is m:
                o.append('  augment "%s" {' % self._path(n))
                self._emit(c, m, o, 4)
                o.append('  }')
        o.append('}')
        return '\n'.join(o) + '\n'

    def _type_lines(self, t, m, ind):
        p = ' ' * ind
        if t.kind == 'string':
            return [p + 'type string;']
        if t.kind == 'int':
            return [p + 'type int32;']
        if t.kind == 'boolean':
            return [p + 'type boolean;']
        if t.kind == 'empty':
            return [p + 'type empty;']
        if t.kind == 'enum':
            return ([p + 'type enumeration {'] +
                    [p + '  enum "%s";' % e for e in t.arg] + [p + '}'])
        if t.kind == 'idref':
            pre = '' if t.arg.mod is m else t.arg.mod.prefix + ':'
            return [p + 'type identityref { base %s%s; }' % (pre, t.arg.name)]
        if t.kind == 'iid':
            return [p + 'type instance-identifier { require-instance false; }']
        if t.kind == 'union':
            o = [p + 'type union {']
            for u in t.arg:
                o += self._type_lines(u, m, ind + 2)
            return o + [p + '}']
        if t.kind == 'leafref':
            return [p + 'type leafref { path "%s"; require-instance false; }'
                    % t.arg]
        raise AssertionError(t.kind)

    def _emit(self, n, m, o, ind):
        p = ' ' * ind
        if n.kind == 'case' and n.shorthand:
            for c in n.children:
                if c.mod is m:
                    self._emit(c, m, o, ind)
            return
        o.append('%s%s %s {' % (p, n.kind, n.name))
        q = p + '  '
        if n.kind == 'list':
            if n.keys:
                o.append('%skey "%s";' % (q, ' '.join(n.keys)))
        if n.kind in ('list', 'leaf-list') and n.user:
            o.append(q + 'ordered-by user;')
        if n.kind == 'container' and n.presence:
            o.append(q + 'presence "yes";')
        if n.kind in ('leaf', 'leaf-list'):
            o += self._type_lines(n.type, m, ind + 2)
        if n.default is not None:
            ds = n.default if isinstance(n.default, list) else [n.default]
            for d in ds:
                if isinstance(d, tuple):
                    pre = self.by_name[d[1]].prefix + ':'
                    d = d[2] if d[1] == m.name else pre + d[2]
                o.append('%sdefault "%s";' % (q, d))
        if n.config is not None:
            o.append('%sconfig %s;' % (q, 'true' if n.config else 'false'))
        if n.mandatory:
            o.append(q + 'mandatory true;')
        if n.status:
            o.append('%sstatus %s;' % (q, n.status))
        if n.desc:
            o.append('%sdescription "%s";' % (q, n.desc))
        for c in n.children:
            if c.mod is m:
                self._emit(c, m, o, ind + 2)
        o.append(p + '}')
