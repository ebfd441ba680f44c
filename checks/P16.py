"""Difference of two versions of a model."""
import copy
import random
import re
import shutil

from lxml import etree

from .common import *
from vp import modelgen
from vp.device import scratch, write_yang
from vp.modelgen import expected, compiled_children
from vp.schema import SNode as N
from vp.yangtext import spell
from .P14 import build

CASES = {'quick': 70, 'thorough': 2500}
RULE = 'the two versions differ'


def generator(ctx):
    def gen(g):
        return {'schema': g.int(0, 10 ** 6), 'rich': g.int(0, 9) == 0,
                'edits': [g.int(0, 10 ** 6) for _ in range(g.int(0, 6))]}
    return gen


def base(case):
    return build({'schema': case['schema'], 'spelling': 1, 'rate': 0,
                  'rich': case['rich']})[0]


def nodes(sch):
    return list(sch.root.walk()) + list(sch.extra.walk())


def drop(sch, n):
    p = n.parent
    p.children.remove(n)
    p._data = p._byid = None


def edit(sch, seed):
    r = random.Random(seed)
    ns = nodes(sch)
    if not ns:
        return
    n = r.choice(ns)
    k = r.choice(['drop', 'drop', 'add', 'add', 'attr', 'attr', 'attr'])
    if k == 'drop':
        if n.is_key or n.kind in ('input', 'output'):
            return
        p = n.parent
        if p.kind in ('choice', 'case') and len(p.children) == 1 or \
           p.kind == 'case' and p.shorthand:
            return
        if n.kind == 'case' and p.default == n.name:
            p.default = None
        drop(sch, n)
    elif k == 'add':
        if n.kind == 'case' and n.shorthand:
            return
        if n.kind in ('container', 'list', 'case', 'input', 'output',
                      'notification'):
            x = 'new-%d' % r.randint(0, 9)
            if any(c.name == x for c in data_space(n)):
                return
            if r.random() < 0.5:
                n.add(N('leaf', x, n.mod, type=modelgen.simple_type(r)))
            else:
                n.add(N('container', x, n.mod, [
                    N('leaf', 'one', n.mod, type=modelgen.simple_type(r)),
                    N('container', 'two', n.mod, [
                        N('leaf-list', 'three', n.mod,
                          type=modelgen.simple_type(r))])]))
        elif n.kind == 'choice':
            x = 'newcase-%d' % r.randint(0, 9)
            if any(c.name == x for c in n.children):
                return
            n.add(N('case', x, n.mod, [
                N('leaf', 'in-' + x + str(r.randint(0, 10 ** 6)), n.mod,
                  type=modelgen.simple_type(r))]))
    else:
        if n.kind == 'leaf' and not n.is_key:
            t = r.choice(['type', 'default', 'mandatory', 'status'])
            if t == 'type':
                n.type = modelgen.simple_type(r)
                n.default = None
            elif t == 'default' and n.type.kind in modelgen.T:
                n.mandatory = False
                n.default = None if n.default else modelgen.T[n.type.kind]
            elif t == 'mandatory' and n.default is None and \
                    not modelgen.in_default_case(n):
                n.mandatory = not n.mandatory and modelgen.one_module(n)
            elif t == 'status':
                n.status = r.choice([None, 'deprecated', 'obsolete'])
        elif n.kind == 'leaf-list':
            if r.random() < 0.5 and n.effective_config and \
               modelgen.access(n) == 'read-write':
                n.user = not n.user
            else:
                n.type = modelgen.simple_type(r)
                n.default = None
        elif n.kind == 'container':
            n.presence = not n.presence
        elif n.kind == 'list' and len(n.keys) > 1:
            if r.random() < 0.5:
                n.keys.reverse()
            else:
                n.keys.pop()
        elif n.kind == 'list' and modelgen.access(n) == 'read-write':
            n.user = not n.user
        elif n.kind == 'choice':
            own = [c.name for c in n.children if c.mod is n.mod and
                   not any(x.mandatory for x in c.walk())]
            if r.random() < 0.5 and own:
                n.mandatory = False
                n.default = r.choice([None] + own)
            elif n.default is None and not modelgen.in_default_case(n):
                n.mandatory = not n.mandatory and modelgen.one_module(n)


def data_space(n):
    p = n
    while p.kind in ('case', 'choice'):
        p = p.parent
    out = []

    def rec(q):
        for c in q.children:
            out.append(c)
            if c.kind in ('choice', 'case'):
                rec(c)
    rec(p)
    return out


def label(n, m):
    return n.name if n.mod.name == m.name else n.mod.prefix + ':' + n.name


def attrs(n, sp, x):
    e = expected(n, sp)
    if n.kind == 'case' and n.shorthand:
        e['status'] = n.children[0].status
    if n.kind in ('leaf', 'leaf-list'):
        if n.type.kind == 'idref':
            e['datatype'] = 'identityref'
            # which identities are known depends on the modules that the
            # compilation of this module loads; P14 decides the values
            e['values'] = None if x is None else x.get('values')
        if n.type.kind == 'union':
            e['members'] = tuple(modelgen.base_name(u) for u in n.type.arg)
    return e


def marks(m, a, b, spa, spb, xa, xb):
    """{path: mark}"""
    out = {}

    def whole(n, path, mark):
        path += (label(n, m),)
        out[path] = mark
        for c in compiled_children(n):
            whole(c, path, mark)

    def sub(x, t):
        return None if x is None else x.find(t)

    def rec(ca, cb, path, xa, xb):
        ka = {c.tag: c for c in ca}
        kb = {c.tag: c for c in cb}
        for t, n in kb.items():
            p = path + (label(n, m),)
            if t not in ka:
                whole(n, path, 'added')
                continue
            ya, yb = sub(xa, t), sub(xb, t)
            if attrs(ka[t], spa, ya) != attrs(n, spb, yb):
                out[p] = 'modified'
            if n.kind not in ('leaf', 'leaf-list'):
                rec(compiled_children(ka[t]), compiled_children(n), p, ya, yb)
        for t, n in ka.items():
            if t not in kb:
                whole(n, path, 'deleted')
    rec(a, b, (), xa, xb)
    return out


LINE = re.compile(r'^ ([| ]  )*\+--(-x|-n|-w|rw|ro|)( |:)(.*?)'
                  r'( +(added|deleted|modified))?$')


def parse_text(text, m, what):
    lines = text.split('\n')
    require(lines[0] == 'module: ' + m.name, '%s begins with %r', what,
            lines[0])
    out = {}
    stack = []
    for line in lines[1:]:
        if line in ('', '  rpcs:', '  notifications:'):
            continue
        k = LINE.match(line)
        require(k, '%s: malformed line %r', what, line)
        depth = (line.index('+--') - 1) // 3
        name = k.group(4)
        name = re.sub(r' \[.*\]$', '', name).strip()
        name = name.rstrip('?*').strip('()')
        require(1 <= depth <= len(stack) + 1, '%s: wrong depth: %r', what,
                line)
        del stack[depth - 1:]
        stack.append(name)
        p = tuple(stack)
        require(p not in out, '%s: %r is there twice', what, p)
        out[p] = k.group(6)
    return out


def roots(sch, m):
    return [c for c in sch.root.children if c.mod is m] + \
        [c for c in sch.extra.children if c.mod is m]


def view(text, m, what, want):
    if not want:
        require(text is None, '%s is %r, but there is nothing', what, text)
        return
    require(text is not None, '%s is None, should have %r', what,
            sorted(want)[:3])
    got = parse_text(text, m, what)
    have = {p: k for p, k in got.items() if k}
    require(have == want, '%s: marked without reason: %r, not marked: %r',
            what, sorted(set(have.items()) - set(want.items())),
            sorted(set(want.items()) - set(have.items())))
    for p in got:
        require(any(q[:len(p)] == p for q in want),
                '%s shows %r, which does not differ', what, p)


def compared(m, a, b, diff, m1, m2, want):
    """compare(): both versions of a node, side by side"""
    paths = []
    for model in (m1, m2):
        for x in model.tree.iter():
            if not isinstance(x.tag, str) or x.tag == 'namespace' or \
               x is model.tree:
                continue
            path = [x] + list(x.iterancestors())[:-1]
            names = []
            for y in reversed(path):
                q = etree.QName(y)
                names.append('%s:%s' % (a.by_ns[q.namespace].prefix,
                                        q.localname))
            t = '/%s/%s' % (m.name, '/'.join(names))
            if t not in paths:
                paths.append(t)
    if len(paths) > 12:
        paths = random.Random(len(paths)).sample(paths, 12)
    prefixes = {x.prefix: x.ns for x in a.modules}
    for t in paths + ['/%s/%s:none' % (m.name, m.prefix)]:
        with sut('compare'):
            text = diff.compare(t)
        parts = re.split(r'-{19,21} (XPATH|MODEL 1|MODEL 2) -{19,21}\n', text)
        require(parts[1::2] == ['XPATH', 'MODEL 1', 'MODEL 2'],
                'compare(%s): %r', t, text)
        require(parts[2].strip() == "'%s'" % t, 'compare(%s): xpath %r', t,
                parts[2])
        for part, model in ((parts[4], m1), (parts[6], m2)):
            nodes = model.tree.xpath(t, namespaces=prefixes)
            lines = [x for x in part.split('\n')
                     if x and not set(x) <= {'-'}]
            if not nodes:
                require(lines == ['None'], 'compare(%s): %r, should be None',
                        t, lines)
                continue
            need = ["tag: '%s'" % nodes[0].tag, 'text: None', 'attributes:']
            require(lines[:3] == need and sorted(lines[3:]) == sorted(
                "  %s = '%s'" % kv for kv in nodes[0].attrib.items()),
                'compare(%s) shows %r', t, lines)


def check(ctx, case):
    from ncdiff.model import ModelCompiler, ModelDiff
    a, b = base(case), base(case)
    for s in case['edits']:
        edit(b, s)
    d1, d2 = scratch(), scratch()
    any_diff = False
    try:
        ya, spa = spell(a, random.Random(1), 0)
        yb, spb = spell(b, random.Random(1), 0)
        write_yang(ya, d1)
        write_yang(yb, d2)
        with sut('ModelCompiler'):
            c1, c2 = ModelCompiler(d1), ModelCompiler(d2)
        for m in a.modules:
            mb = b.by_name[m.name]
            with sut('ModelDiff of %s' % m.name):
                m1, m2 = c1.compile(m.name), c2.compile(m.name)
                t1, t2 = str(m1), str(m2)
                fw, bw = ModelDiff(m1, m2), ModelDiff(m2, m1)
                same = ModelDiff(m1, c1.compile(m.name))
                texts = [(str(x), x.added, x.deleted, x.modified, str(x))
                         for x in (fw, bw)]
                truth = bool(fw), bool(bw), bool(same)
            require((str(m1), str(m2)) == (t1, t2), 'a model was changed')
            want = marks(m, roots(a, m), roots(b, mb), spa, spb,
                         m1.tree, m2.tree)
            back = {p: {'added': 'deleted', 'deleted': 'added'}.get(k, k)
                    for p, k in want.items()}
            require(truth == (bool(want), bool(want), False),
                    'truth values are %r', truth)
            for (s, ad, de, mo, s2), w, what in (
                    (texts[0], want, 'difference'),
                    (texts[1], back, 'reverse difference')):
                require(s == s2, 'str() differs when asked again')
                if w:
                    view(s, m, what, w)
                for v, k in ((ad, 'added'), (de, 'deleted'),
                             (mo, 'modified')):
                    view(v, m, what + '.' + k,
                         {p: x for p, x in w.items() if x == k})
            compared(m, a, b, fw, m1, m2, want)
            for k in want.values():
                ctx.label(k)
            any_diff = any_diff or bool(want)
    finally:
        for x in (d1, d2):
            shutil.rmtree(x, ignore_errors=True)
    return any_diff
