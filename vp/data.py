"""Instance data: independent pure-Python model of YANG configuration data.

A tree is a list of D (the children of the datastore root).  Everything here is
written from RFC 7950 / RFC 6241 and the AST in schema.py; the code under test
is not involved.
"""
from lxml import etree

from .schema import NC_NS, YANG_NS


class D:
    __slots__ = ('s', 'val', 'kids')

    def __init__(self, s, val=None, kids=None):
        self.s = s
        self.val = val
        self.kids = kids if kids is not None else []

    def copy(self):
        return D(self.s, self.val, [k.copy() for k in self.kids])

    def __repr__(self):
        if self.s.kind in ('leaf', 'leaf-list'):
            return '%s=%r' % (self.s.name, self.val)
        return '%s%r' % (self.s.name, self.kids)


def copy_kids(kids):
    return [k.copy() for k in kids]


# -- identity of nodes, comparison ----------------------------------------

def ident(d):
    """What tells a node from its siblings."""
    s = d.s
    if s.kind == 'leaf-list':
        return (s, d.val)
    if s.kind == 'list':
        return (s, key_values(d))
    return (s, None)


def key_values(d):
    out = []
    for k in d.s.key_nodes:
        v = [x.val for x in d.kids if x.s is k]
        assert len(v) == 1, (d, k)
        out.append(v[0])
    return tuple(out)


def canon(kids):
    """Hashable canonical form; order kept only where it has meaning."""
    plain = {}
    user = {}
    for d in kids:
        s = d.s
        sub = d.val if s.kind in ('leaf', 'leaf-list') else canon(d.kids)
        i = ident(d)
        if s.kind in ('list', 'leaf-list') and s.user:
            user.setdefault(s.tag, []).append((i[1], sub))
        else:
            k = (s.tag, i[1])
            assert k not in plain, 'duplicate %r' % (k,)
            plain[k] = sub
    return (frozenset(plain.items()),
            frozenset((t, tuple(v)) for t, v in user.items()))


def equal(a, b):
    return canon(a) == canon(b)


def le(a, b):
    """every node of a exists in b; ordered-by user order is preserved"""
    other = {ident(d): d for d in b}
    for d in a:
        o = other.get(ident(d))
        if o is None:
            return False
        if d.s.kind == 'leaf':
            if d.val != o.val:
                return False
        elif d.s.kind in ('container', 'list'):
            if not le(d.kids, o.kids):
                return False
    for s in {d.s for d in a if d.s.kind in ('list', 'leaf-list') and
              d.s.user}:
        pos = {ident(d): i for i, d in enumerate(b)}
        p = [pos[ident(d)] for d in a if d.s is s]
        if p != sorted(p):
            return False
    return True


def count(kids):
    return sum(1 + count(d.kids) for d in kids)


# -- normalisation ----------------------------------------------------------

def default_values(s):
    """default in value space, or None"""
    if s.default is None or s.is_key:
        return None
    ds = s.default if isinstance(s.default, list) else [s.default]
    return ds


def normalise(kids, remove=()):
    """Trim default values and empty non-presence containers; drop nodes whose
    status is in remove."""
    out = []
    for d in kids:
        s = d.s
        if s.status in remove and s.status is not None:
            continue
        if s.kind == 'leaf':
            dv = default_values(s)
            if dv is not None and d.val == dv[0]:
                continue
            out.append(D(s, d.val))
        elif s.kind == 'leaf-list':
            out.append(D(s, d.val))
        else:
            sub = normalise(d.kids, remove)
            if s.kind == 'container' and not s.presence and not sub:
                continue
            out.append(D(s, None, sub))
    for s in {d.s for d in out if d.s.kind == 'leaf-list' and
              d.s.default is not None}:
        vals = [d.val for d in out if d.s is s]
        dv = list(s.default)
        if (s.user and vals == dv) or (not s.user and set(vals) == set(dv)):
            out = [d for d in out if d.s is not s]
    return out


def drop(kids, pred):
    """remove every node for which pred(d), with its subtree"""
    return [D(d.s, d.val, drop(d.kids, pred)) for d in kids if not pred(d)]


# -- merge --------------------------------------------------------------------

def clear_other_cases(kids, s):
    """remove from kids all nodes that belong to another case than s"""
    for choice, case in s.cases:
        for x in list(kids):
            for ch2, ca2 in x.s.cases:
                if ch2 is choice and ca2 is not case:
                    kids.remove(x)
                    break


def find(kids, d):
    i = ident(d)
    for x in kids:
        if ident(x) == i:
            return x
    return None


# -- rendering ------------------------------------------------------------------

def esc(t):
    return t.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def esca(t):
    return esc(t).replace('"', '&quot;').replace('\n', '&#10;')


class Style:
    """How a data tree is written down; none of it changes the meaning.

    mode 0: default namespace declared where the namespace changes
    mode 1: every prefix declared on the wrapper, every tag prefixed
    mode 2: tags prefixed, prefixes declared on every top-level node
    mode 3: every top-level node declares all prefixes and its own namespace
            as the default; nodes of other modules are prefixed
    alias:  which set of prefixes is used (0 the modules' own, 1 others,
            2 those of other modules, 3 changing from leaf to leaf in mode 0)
    pretty: indentation whitespace between elements
    comment: 1: comments; more: comments, processing instructions, CDATA and
            character references, which of them is told by the number
    wrap:   config | data | rpc-reply | edit-config | rpc
    order:  function(list of D) -> list of D (semantic-preserving shuffle)
    """

    def __init__(self, mode=0, alias=0, pretty=False, wrap='config',
                 order=None, comment=False, ncprefix=True, iidq=0,
                 iidws=0):
        self.mode = mode
        self.alias = alias
        self.pretty = pretty
        self.wrap = wrap
        self.order = order
        self.comment = comment
        self.ncprefix = ncprefix
        self.iidq = iidq
        self.iidws = iidws
        self.mods = []
        self.leaf = 1
        self.dice = 0

    def prefix(self, mod):
        if self.alias > 1 and mod in self.mods:
            n = len(self.mods)
            k = self.leaf if self.alias == 3 and self.mode == 0 else 1
            return self.mods[(self.mods.index(mod) + k) % n].prefix
        return 'q-' + mod.prefix if self.alias == 1 else mod.prefix

    def roll(self, n):
        """a choice of 0..n-1 that depends on what was written before"""
        self.dice = (self.dice * 1103515245 + 12345 + 7 * self.comment) % \
            (1 << 31)
        return (self.dice >> 16) % n

    def aside(self, pct=20):
        """what has no meaning between two nodes"""
        if self.comment < 2 or self.roll(100) >= pct:
            return ''
        return ['<!-- c -->', '<?pi x?>', '<!--<leaf>x</leaf>-->',
                '<!-- a --><!-- b -->'][self.roll(4)]

    def spelled(self, text):
        """the text of a leaf"""
        if self.comment < 2 or not text:
            return esc(text)
        k = self.roll(len(text) + 1)
        a, b = text[:k], text[k:]
        if not a.strip() or not b.strip():
            # parsers may drop white space next to a comment
            a, b = '', text
            if not b.strip():
                return esc(text)
        return [esc, esc, esc,
                lambda t: esc(a) + self.aside(100) + esc(b),
                lambda t: '<![CDATA[%s]]>' % t if ']]>' not in t else esc(t),
                lambda t: esc(a) + ('<![CDATA[%s]]>' % b if ']]>' not in b
                                    else esc(b)),
                lambda t: ''.join('&#%d;' % ord(c) for c in t),
                lambda t: ''.join('&#x%x;' % ord(c) for c in a) + esc(b),
                ][self.roll(8)](text)

    def describe(self):
        return {'mode': self.mode, 'alias': self.alias, 'pretty': self.pretty,
                'wrap': self.wrap, 'shuffled': self.order is not None}


def quote_literal(v, q=0):
    """XPath 1.0 literal; the value must not contain both kinds of quotes"""
    if "'" in v:
        return '"%s"' % v
    if '"' in v:
        return "'%s'" % v
    return ('"%s"' if q else "'%s'") % v


def value_text(schema, d, st, force_prefix):
    """(text, set of modules whose prefix is used)"""
    v = d.val
    if isinstance(v, str):
        return v, set()
    if v is None:
        return '', set()
    if v[0] == 'id':
        m = schema.by_name[v[1]]
        if m is d.s.mod and not force_prefix and st.mode == 0:
            return v[2], set()
        return '%s:%s' % (st.prefix(m), v[2]), {m}
    if v[0] == 'iid':
        o = ''
        used = set()
        for mn, name, preds in v[1]:
            m = schema.by_name[mn]
            used.add(m)
            o += '/%s:%s' % (st.prefix(m), name)
            # RFC 7950 section 14 allows white space in predicates
            w = [' ' * (st.iidws >> i & 1) for i in range(4)]
            for pm, pn, pv in preds:
                if pn == '#':
                    o += '[%s%s%s]' % (w[0], pv, w[3])
                    continue
                if pn != '.':
                    m2 = schema.by_name[pm]
                    used.add(m2)
                    pn = '%s:%s' % (st.prefix(m2), pn)
                o += '[%s%s%s=%s%s%s]' % (w[0], pn, w[1], w[2], quote_literal(
                    pv, st.iidq), w[3])
        return o, used
    raise AssertionError(v)


def render(schema, kids, st=None, attrs=None):
    """XML text.  attrs: optional {id(d): {qualified attribute: value}} where
    a qualified attribute is written with the nc / yang prefixes."""
    st = st or Style()
    st.mods = schema.modules
    decl_all = ''.join(' xmlns:%s="%s"' % (st.prefix(m), m.ns)
                       for m in schema.modules)
    o = []
    nl = '\n' if st.pretty else ''

    def rec(d, scope_ns, declared, depth):
        s = d.s
        head = ''
        if st.mode == 0:
            tag = s.name
            if scope_ns != s.mod.ns:
                head += ' xmlns="%s"' % s.mod.ns
        elif st.mode == 3:
            tag = s.name
            if depth == 1:
                head += ' xmlns="%s"' % s.mod.ns + decl_all
            elif s.mod.ns != scope_ns:
                tag = '%s:%s' % (st.prefix(s.mod), s.name)
        else:
            tag = '%s:%s' % (st.prefix(s.mod), s.name)
            if st.mode == 2 and depth == 1:
                head += decl_all
        text = None
        a = (attrs or {}).get(id(d))
        anchored = bool(a) and ('yang:value' in a or 'yang:key' in a)
        if st.mode == 0 and anchored:
            st.leaf = 1
            head += decl_all
        elif st.mode == 0:
            st.leaf += 1
        if s.kind in ('leaf', 'leaf-list'):
            text, used = value_text(schema, d, st, False)
            if st.mode == 0 and not anchored:
                for m in sorted(used, key=lambda m: m.name):
                    head += ' xmlns:%s="%s"' % (st.prefix(m), m.ns)
        if a:
            for k, v in a.items():
                head += ' %s="%s"' % (k, esca(v))
        ind = '  ' * depth if st.pretty else ''
        if s.kind in ('leaf', 'leaf-list'):
            if text == '':
                o.append('%s<%s%s/>%s' % (ind, tag, head, nl))
            else:
                o.append('%s<%s%s>%s</%s>%s' % (
                    ind, tag, head, st.spelled(text), tag, nl))
            o.append(st.aside(10))
        else:
            sub = st.order(d.kids) if st.order else d.kids
            if not sub:
                o.append('%s<%s%s/>%s' % (ind, tag, head, nl))
            else:
                o.append('%s<%s%s>%s' % (ind, tag, head, nl))
                if st.comment:
                    o.append('%s<!-- c -->%s' % (ind, nl))
                for k in sub:
                    rec(k, scope_ns if st.mode == 3 and depth > 1
                        else s.mod.ns, True, depth + 1)
                o.append(st.aside())
                o.append('%s</%s>%s' % (ind, tag, nl))

    nc = 'nc:' if st.ncprefix else ''
    ncd = 'xmlns:nc="%s"' % NC_NS
    if not st.ncprefix:
        ncd = 'xmlns="%s" ' % NC_NS + ncd
    base = '%s xmlns:yang="%s"' % (ncd, YANG_NS)
    if st.mode == 1:
        base += decl_all
    pre, post = {
        'config': ('<{0}config {1}>', '</{0}config>'),
        'data': ('<{0}data {1}>', '</{0}data>'),
        'rpc-reply': ('<{0}rpc-reply message-id="1" {1}><{0}data>',
                      '</{0}data></{0}rpc-reply>'),
        'edit-config': ('<{0}edit-config {1}><{0}target><{0}running/>'
                        '</{0}target><{0}config>',
                        '</{0}config></{0}edit-config>'),
        'rpc': ('<{0}rpc message-id="1" {1}><{0}edit-config><{0}target>'
                '<{0}running/></{0}target><{0}config>',
                '</{0}config></{0}edit-config></{0}rpc>'),
    }[st.wrap]
    if st.comment > 1:
        o.append(['', '<?xml version="1.0"?>', '<!-- c -->', '<?pi?>\n',
                  '<?xml version="1.0"?>\n<!-- c -->'][st.roll(5)])
    o.append(pre.format(nc, base) + nl + st.aside())
    top_scope = None if st.ncprefix else NC_NS
    for k in (st.order(kids) if st.order else kids):
        rec(k, top_scope, True, 1)
    o.append(post.format(nc, base) + nl)
    return ''.join(o)


# -- parsing (used to read what the code under test produced) -------------------

class BadData(Exception):
    """the XML is not an instance of the schema"""


def parse_value(schema, s, e):
    t = e.text or ''
    k = s.type.kind
    if k == 'idref':
        if ':' in t:
            p, n = t.split(':', 1)
            if p not in e.nsmap:
                raise BadData('prefix %r of %r is not declared' % (p, t))
            ns = e.nsmap[p]
        else:
            ns, n = e.nsmap.get(None), t
        if ns not in schema.by_ns:
            raise BadData('%r: namespace %r' % (t, ns))
        return ('id', schema.by_ns[ns].name, n)
    if k == 'iid':
        return parse_iid(schema, t, e.nsmap)
    return t


def parse_iid(schema, t, nsmap):
    steps = []
    i = 0
    n = len(t)

    def name(i):
        j = i
        while j < n and t[j] not in '/[=]' and not t[j].isspace():
            j += 1
        q = t[i:j]
        if ':' not in q:
            raise BadData('unprefixed name in instance-identifier %r' % t)
        p, nm = q.split(':', 1)
        if p not in nsmap or nsmap[p] not in schema.by_ns:
            raise BadData('prefix %r in instance-identifier %r' % (p, t))
        return schema.by_ns[nsmap[p]].name, nm, j

    while i < n:
        if t[i] != '/':
            raise BadData('instance-identifier %r' % t)
        mn, nm, i = name(i + 1)
        preds = []

        def blank(i):
            while i < n and t[i].isspace():
                i += 1
            return i
        while i < n and t[i] == '[':
            i = blank(i + 1)
            if t[i:i + 1].isdigit():
                j = i
                while t[j:j + 1].isdigit():
                    j += 1
                preds.append((None, '#', t[i:j]))
                i = blank(j)
            else:
                if t[i:i + 1] == '.':
                    pm, pn = None, '.'
                    i += 1
                else:
                    pm, pn, i = name(i)
                i = blank(i)
                if t[i:i + 1] != '=':
                    raise BadData('instance-identifier %r' % t)
                i = blank(i + 1)
                q = t[i:i + 1]
                j = t.find(q, i + 1)
                if q not in ('"', "'") or j < 0:
                    raise BadData('instance-identifier %r' % t)
                preds.append((pm, pn, t[i + 1:j]))
                i = blank(j + 1)
            if t[i:i + 1] != ']':
                raise BadData('instance-identifier %r' % t)
            i += 1
        steps.append((mn, nm, tuple(preds)))
    return ('iid', tuple(steps))


def split(tag):
    if tag.startswith('{'):
        ns, n = tag[1:].split('}', 1)
        return ns, n
    return None, tag


def parse(schema, root, allow_attr=False):
    """children of an XML element as a data tree"""
    def rec(s, e):
        out = []
        for c in e:
            if not isinstance(c.tag, str):
                continue
            cs = s.child(*split(c.tag))
            if cs is None:
                raise BadData('%s is not a child of %s' % (c.tag, s.name))
            if not allow_attr and c.attrib:
                raise BadData('%s has attributes %r' % (c.tag,
                                                        dict(c.attrib)))
            if cs.kind in ('leaf', 'leaf-list'):
                if len([x for x in c if isinstance(x.tag, str)]):
                    raise BadData('%s has children' % c.tag)
                out.append(D(cs, parse_value(schema, cs, c)))
            else:
                if c.text is not None and c.text.strip():
                    raise BadData('%s has text %r' % (c.tag, c.text))
                out.append(D(cs, None, rec(cs, c)))
        seen = set()
        for d in out:
            if d.s.kind == 'list':
                for k in d.s.key_nodes:
                    if sum(1 for x in d.kids if x.s is k) != 1:
                        raise BadData('list entry %s: key %s' % (d.s.name,
                                                                 k.name))
            i = ident(d)
            if i in seen:
                raise BadData('duplicate %s %r' % (d.s.name, i[1]))
            seen.add(i)
        return out
    if isinstance(root, str):
        root = etree.XML(root)
    return rec(schema.root, root)


def check_single_case(kids):
    """at most one case of every choice is populated"""
    seen = {}
    for d in kids:
        for choice, case in d.s.cases:
            if seen.setdefault(choice, case) is not case:
                raise BadData('two cases of choice %s' % choice.name)
        check_single_case(d.kids)
