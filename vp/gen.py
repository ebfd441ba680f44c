"""Generators.  Every choice a generator makes is a small integer drawn
through a G.  The list of these integers determines the case, so a case can
be replayed, and shrunk by deleting and lowering integers (vp/search.py)."""
import itertools
import random
import unicodedata

from .schema import Module, SNode, Schema, Type, Identity
from .data import D, Style, normalise, key_values, ident


class TooLong(Exception):
    """the case needs more choices than allowed"""


class G:
    """draws small integers; 0 is always the simplest answer"""

    LIMIT = 20000

    def __init__(self, rnd=None, choices=None):
        self.r = rnd
        self.given = choices
        self.log = []

    def int(self, lo, hi):
        if hi <= lo:
            return lo
        n = len(self.log)
        if n >= self.LIMIT:
            raise TooLong()
        if self.given is None:
            v = self.r.randint(0, hi - lo)
        else:
            v = self.given[n] if n < len(self.given) else 0
            v = max(0, min(v, hi - lo))
        self.log.append(v)
        return lo + v

    def chance(self, pct):
        """True with about pct percent; shrinks to False"""
        return self.int(0, 99) >= 100 - pct

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def shuffle(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.int(0, len(seq) - 1)))
        return out

    def subset(self, seq, pct=50):
        return [x for x in seq if self.chance(pct)]

    def text(self, alphabet, lo, hi):
        return ''.join(self.pick(alphabet) for _ in range(self.int(lo, hi)))


class RandomG(G):
    LIMIT = 10 ** 9

    def __init__(self, seed):
        G.__init__(self, random.Random(seed))

    def int(self, lo, hi):
        return self.r.randint(lo, hi) if hi > lo else lo


# -- schemas --------------------------------------------------------------------

def N(*a, **k):
    return SNode(*a, **k)


def rich():
    """One schema with every construct the library treats specially."""
    m = Module('vp-main', 'm', 'urn:vp:main')
    x = Module('vp-ext', 'x', 'urn:vp:ext')
    i = Module('vp-ids', 'ids', 'http://vp.example/ids')
    t = Module('vp-two', 't', 'http://vp.example/two')
    base = Identity(i, 'base-id')
    red = Identity(i, 'red', [base])
    blue = Identity(m, 'blue', [base])
    green = Identity(x, 'green', [base])
    navy = Identity(t, 'navy', [base])
    red2 = Identity(t, 'red', [base])
    S = Type('string')
    I = Type('int')
    E = Type('enum', ['one', 'two', 'three'])
    B = Type('boolean')
    ID = Type('idref', base)

    def entry(name, **k):
        return N('list', name, keys=['name'], children=[
            N('leaf', 'name', type=S),
            N('leaf', 'mtu', type=I, default='1500'),
            N('leaf', 'descr', type=S),
            N('container', 'opts', children=[
                N('leaf', 'speed', type=E, default='two'),
                N('leaf-list', 'tag', type=S),
                N('leaf-list', 'seq', type=S, user=True),
            ]),
            N('list', 'unit', keys=['id', 'kind'], children=[
                N('leaf', 'id', type=I),
                N('leaf', 'kind', type=E),
                N('leaf', 'addr', type=S),
                N('list', 'hop', keys=['n'], user=True, children=[
                    N('leaf', 'n', type=I),
                    N('leaf', 'via', type=S),
                ]),
            ]),
        ], **k)
    top = N('container', 'top', m, [
        N('leaf', 'host', type=S),
        N('leaf', 'flag', type=B, default='false'),
        N('leaf', 'hue', type=ID, default=('id', 'vp-ids', 'red')),
        N('leaf', 'tint', type=ID, default=('id', 'vp-main', 'blue')),
        N('leaf-list', 'hues', type=ID, default=[
            ('id', 'vp-main', 'blue'), ('id', 'vp-ids', 'red')]),
        N('leaf', 'mark', type=Type('empty')),
        N('leaf', 'colour', type=ID),
        N('leaf', 'ref', type=Type('iid')),
        N('leaf', 'ext', x, type=S),
        N('leaf', 'host', x, type=S),
        N('leaf', 'xcolour', x, type=ID),
        N('leaf-list', 'server', type=S),
        N('leaf-list', 'dns', type=S, user=True),
        N('leaf-list', 'dflt', type=S, default=['a', 'b']),
        N('leaf-list', 'pal', type=ID),
        entry('port'),
        entry('rule', user=True),
        N('list', 'typed', keys=['type'], children=[
            N('leaf', 'type', type=ID),
            N('leaf', 'val', type=S),
        ]),
        N('container', 'pres', presence=True, children=[
            N('leaf', 'p1', type=S),
            N('leaf', 'p2', type=I, default='7'),
            N('container', 'inner', x, children=[
                N('leaf', 'q', type=S),
                N('leaf-list', 'qs', type=I, user=True),
            ]),
        ]),
        N('choice', 'way', default='second', children=[
            N('case', 'first', children=[
                N('leaf', 'f1', type=S),
                N('leaf', 'f2', type=I),
                N('container', 'fc', children=[
                    N('leaf', 'fcl', type=S)]),
            ]),
            N('case', 'second', children=[
                N('leaf-list', 's1', type=S),
                N('list', 'sl', keys=['k'], children=[
                    N('leaf', 'k', type=S), N('leaf', 'v', type=S)]),
            ]),
            N('case', 'third', shorthand=True, children=[
                N('container', 'third', children=[
                    N('leaf', 't1', type=S)])]),
            N('case', 'xcase', x, children=[
                N('leaf', 'xc1', type=S),
            ]),
        ]),
    ])
    alone = N('container', 'alone', m, [
        N('container', 'deep', children=[
            N('container', 'deeper', children=[
                N('leaf', 'd1', type=S),
                N('container', 'pdeep', presence=True, children=[
                    N('leaf', 'z', type=S)]),
                entry('dl', user=True),
            ])]),
    ])
    troot = N('list', 'item', t, keys=['id'], children=[
        N('leaf', 'id', type=S),
        N('leaf', 'v', type=S, default='dv'),
        N('leaf-list', 'w', type=S),
    ])
    tuser = N('list', 'step', t, keys=['id'], user=True, children=[
        N('leaf', 'id', type=S),
        N('leaf', 'v', type=S),
    ])
    tleaf = N('leaf', 'tleaf', t, type=S)
    tll = N('leaf-list', 'tll', t, type=S)
    tul = N('leaf-list', 'tul', t, type=S, user=True)
    tch = N('choice', 'tch', t, [
        N('case', 'ta', children=[N('leaf', 'ta1', type=S)]),
        N('case', 'tb', children=[N('leaf', 'tb1', type=S)]),
    ])
    return Schema([i, m, x, t], [top, alone, troot, tuser, tleaf, tll, tul,
                                 tch],
                  [base, red, blue, green, navy, red2], name='rich')


NAMES = ['ann', 'bob', 'cat', 'dog', 'eve', 'fox', 'gnu-x', 'hen_y', 'ibi.z',
         'jay']


def random_schema(seed, status=False, readonly=False, nested_choice=True,
                  user=True, iid=True):
    """A small random schema; everything decided by the seed."""
    g = RandomG(seed)
    r = g.r
    mods = [Module('ra', 'ns1' if seed % 7 == 3 else 'pa', 'urn:vp:ra'),
            Module('rb', 'pb', 'http://vp.example/rb')]
    if r.random() < 0.4:
        mods.append(Module('rc-aug', 'pc', 'urn:vp:rc/aug'))
    if seed % 3 == 1:
        # names that are parts of each other
        for m, x in zip(mods, (('ra', 'p.a', 'urn:vp:r'),
                               ('ra-b', 'pxa', 'urn:vp:r/b'),
                               ('ra.c', 'a', 'urn:vp:r:c'))):
            m.name, m.prefix, m.ns = x
    base = Identity(mods[0], 'base0')
    idents = [base] + [Identity(r.choice(mods), 'idn%d' % k, [base])
                       for k in range(3)]
    # the same name in another module
    idents += [Identity(m, i.name, [base]) for i in idents[1:2]
               for m in mods if m is not i.mod][:r.choice([0, 1, 2])]
    counter = [0]

    def fresh():
        counter[0] += 1
        return counter[0]

    def typ(key=False, idref=True, ref=False):
        kinds = ['string'] * 4 + ['int', 'enum', 'boolean']
        if idref:
            kinds.append('idref')
        if not key:
            kinds += ['empty', 'union']
        if iid and (ref or not key):
            kinds.append('iid')
        k = r.choice(kinds)
        if k == 'enum':
            return Type(k, ['e1', 'e2', 'e3'])
        if k == 'idref':
            return Type(k, base)
        if k == 'union':
            return Type(k, [Type('int'), Type('string')])
        return Type(k)

    def default_for(t, mod):
        if t.kind == 'idref':
            # modules do not import each other
            own = [i for i in idents if i is not base and
                   i.mod in (mod, base.mod)]
            if not own:
                return None
            i = r.choice(own)
            return ('id', i.mod.name, i.name)
        return {'string': 'dd', 'int': '10', 'enum': 'e2', 'boolean': 'true',
                'union': '3'}.get(t.kind)

    def pick_mod(parent_mod):
        if parent_mod is None:
            return r.choice(mods)
        if r.random() < 0.15:
            later = mods[mods.index(parent_mod):]
            return r.choice(later)
        return parent_mod

    def stat(n):
        if status and n.kind != 'case' and r.random() < 0.15:
            n.status = r.choice(['deprecated', 'obsolete'])
        if readonly and r.random() < 0.12:
            n.config = False
        return n

    def children(parent_mod, depth, used, n, ro=False):
        out = []
        for _ in range(n):
            mod = pick_mod(parent_mod)
            free = [x for x in NAMES if (x, mod) not in used]
            if not free:
                break
            name = r.choice(free)
            used.add((name, mod))
            kinds = ['leaf'] * 3 + ['leaf-list']
            if depth < 4:
                kinds += ['container'] * 2 + ['list'] * 2
            kinds += ['choice'] * 2
            k = r.choice(kinds)
            if k == 'leaf':
                t = typ()
                c = N('leaf', name, mod, type=t)
                if r.random() < 0.3:
                    c.default = default_for(t, mod)
            elif k == 'leaf-list':
                by_user = user and r.random() < 0.5
                t = typ(key=True, idref=True, ref=True)
                c = N('leaf-list', name, mod, type=t, user=by_user)
                if r.random() < 0.2 and t.kind == 'string':
                    c.default = ['a', 'c']
                elif r.random() < 0.3 and t.kind == 'idref':
                    x = default_for(t, mod)
                    c.default = [x] if x else None
            elif k == 'container':
                c = N('container', name, mod, presence=r.random() < 0.35)
                for x in children(mod, depth + 1, set(), r.randint(1, 4)):
                    c.add(x)
            elif k == 'list':
                nk = r.choice([1, 1, 1, 2, 2, 3])
                keys = r.sample(['k1', 'k2', 'ann', 'zed'], nk)
                by_user = user and r.random() < 0.5
                c = N('list', name, mod, keys=keys, user=by_user)
                kn = [N('leaf', x, mod, type=typ(key=True, idref=True, ref=True))
                      for x in keys]
                for x in kn:
                    # RFC 7950 7.8.2: ignored
                    if r.random() < 0.1:
                        x.default = default_for(x.type, mod)
                if r.random() < 0.5:
                    kn.reverse()
                for x in kn:
                    c.add(x)
                for x in children(mod, depth + 1,
                                  {(x, mod) for x in keys},
                                  r.randint(0, 3)):
                    c.add(x)
            else:
                if depth >= 4:
                    continue
                used.discard((name, mod))
                c = N('choice', 'ch%d' % fresh(), mod)
                for _ in range(r.randint(2, 3)):
                    ca = N('case', 'ca%d' % fresh(), mod)
                    for x in children(mod, depth + (1 if nested_choice
                                                    else 9),
                                      used, r.randint(1, 2)):
                        ca.add(x)
                    if not ca.children:
                        continue
                    if len(ca.children) == 1 and r.random() < 0.3 and \
                       ca.children[0].kind != 'choice' and \
                       ca.children[0].mod is mod:
                        ca.shorthand = True
                        ca.name = ca.children[0].name
                    c.add(ca)
                if not c.children:
                    continue
            out.append(stat(c))
        return out

    roots = []
    used = set()
    for _ in range(r.randint(2, 4)):
        roots += children(None, 0, used, 1)
    if not any(x.kind in ('container', 'list') for x in roots):
        mod = mods[0]
        c = N('container', 'forced', mod)
        for x in children(mod, 1, set(), 4):
            c.add(x)
        roots.append(c)
    sch = Schema(mods, roots, idents, name='rand:%d' % seed)
    for n in sch.root.walk():
        if n.kind == 'choice' and r.random() < 0.35:
            own = [c for c in n.children if c.mod is n.mod]
            if own:
                n.default = r.choice(own).name
    return sch


# -- values -------------------------------------------------------------------------

PLAIN = ['a', 'b', 'c', 'd', 'e']
ODD = ['A', '0', 'a b', 'b c d', 'x/y', '<&>', 'v:1', 'e\u00e9', '[1]', '-',
       'a=b', '1500', 'dv', 'dd', '{x}', '*', '%s', 'GigabitEthernet0/0/1',
       '\u4e2d', "it's", 'say "hi"', ' lead', 'trail ', 'two  gaps',
       'l1\nl2', 'tab\there', ' ', '\n', ',', 'a,b', 'true', '0x1F']
FREE = [chr(c) for c in range(33, 0x300)
        if chr(c).isprintable() and chr(c) not in '"\'' and c != 0xad]


class Profile:
    """Bounds of the data generator."""

    def __init__(self, quotes=True, empty=True, free=True, width=4,
                 odd_pct=25, allow_iid=True, key_quotes=True,
                 both_quotes=True):
        self.quotes = quotes
        self.empty = empty
        self.free = free
        self.width = width
        self.odd_pct = odd_pct
        self.allow_iid = allow_iid
        self.key_quotes = key_quotes
        self.both_quotes = both_quotes


def gen_string(g, prof, key=False):
    if g.chance(prof.odd_pct):
        if prof.both_quotes and g.chance(10):
            return g.pick(['\'"', 'a\'b"c', '"x\'', 'it\'s "so" said'])
        if prof.free and g.chance(40):
            return g.text(FREE, 1, 6)
        if prof.empty and not key and g.chance(10):
            return ''
        pool = [x for x in ODD
                if not ((not prof.quotes or (key and not prof.key_quotes)) and
                        ("'" in x or '"' in x))]
        return g.pick(pool)
    return g.pick(PLAIN)


def near(g, prof, v, key=False):
    """another string that is easily taken for v"""
    w = [x for x in (
        v + ' ', ' ' + v, v.strip(), v.upper(), v.lower(), v.swapcase(),
        v.replace(' ', '  '), v.replace('  ', ' '), v.replace(' ', '\t'),
        v + '\n', '0' + v, v + '0', v + '.0', v + v, v[:-1], v[1:],
        v.replace('e', '\u00e9'), unicodedata.normalize('NFD', v),
        unicodedata.normalize('NFKC', v), v.replace('-', '_'), v + '/',
        v.replace('&', '&amp;'), 'x:' + v, v[::-1]) if x != v and x.strip()]
    return g.pick(w)


def near_one(g, prof, s, old, pct):
    """close to one of the old values, or None"""
    if s.type.kind == 'string' and prof.free:
        old = [x for x in old if isinstance(x, str) and x]
        if old and g.chance(pct):
            return near(g, prof, g.pick(old))
    return None


def gen_value(g, schema, s, prof, key=False, t=None):
    t = t or s.type
    k = t.kind
    if k == 'string':
        if s.default is not None and g.chance(25):
            return s.default if isinstance(s.default, str) \
                else g.pick(s.default)
        return gen_string(g, prof, key)
    if k == 'int':
        if s.default is not None and g.chance(25):
            return s.default
        return str(g.int(0, 9) if not g.chance(10) else -g.int(1, 99))
    if k == 'enum':
        return g.pick(t.arg)
    if k == 'boolean':
        return g.pick(['true', 'false'])
    if k == 'empty':
        return ''
    if k == 'idref':
        if s.default is not None and g.chance(25):
            return s.default if isinstance(s.default, tuple) \
                else g.pick(s.default)
        i = g.pick(schema.derived(t.arg) or [t.arg])
        return ('id', i.mod.name, i.name)
    if k == 'union':
        return gen_value(g, schema, s, prof, key, g.pick(t.arg))
    if k == 'iid':
        return gen_iid(g, schema)
    raise AssertionError(k)


def gen_iid(g, schema):
    steps = []
    n = schema.root
    depth = g.int(1, 4)
    while len(steps) < depth:
        c = n.data_children
        if not c:
            break
        n = g.pick(c)
        preds = ()
        if n.kind in ('list', 'leaf-list') and g.chance(10):
            preds = ((None, '#', str(g.int(1, 12))),)
        elif n.kind == 'list':
            preds = tuple((n.mod.name, k, g.pick(
                ['a', 'b', 'a b', 'x/y', '[1]', 'v:1', "it's", 'a=b', 'a.b']))
                for k in n.keys)
        elif n.kind == 'leaf-list':
            preds = ((None, '.', g.pick(['a', 'b/c', 'x:y'])),)
        steps.append((n.mod.name, n.name, preds))
    return ('iid', tuple(steps))


# -- data trees ----------------------------------------------------------------------

def gen_kids(g, schema, s, prof, pct=45, depth=0, raw=False):
    out = []
    for c in s.children:
        out += gen_node(g, schema, c, prof, pct, depth, raw)
    return out


SEPARATORS = [' ', '/', ',', '', '|', ':', '-', '_', ';', '.', '][', '\n',
              '+', '#', '=', '@']


def string_keys(s):
    return [i for i, k in enumerate(s.key_nodes) if k.type.kind == 'string']


def gen_twins(g, s, entry):
    """key values of entries that differ, but are the same when their keys are
    joined by a separator"""
    i, j = g.pick([(0, 1), (0, -1), (-2, -1)])
    i, j = string_keys(s)[i], string_keys(s)[j]
    if entry is not None:
        vals = list(key_values(entry))
        if isinstance(vals[i], str) and isinstance(vals[j], str):
            for p, c in enumerate(vals[i]):
                if c in SEPARATORS and 0 < p < len(vals[i]) - 1:
                    a, b = vals[i][:p], vals[i][p + 1:] + c + vals[j]
                    vals[i], vals[j] = a, b
                    return [tuple(vals)]
            for p, c in enumerate(vals[j]):
                if c in SEPARATORS and 0 < p < len(vals[j]) - 1:
                    a, b = vals[i] + c + vals[j][:p], vals[j][p + 1:]
                    vals[i], vals[j] = a, b
                    return [tuple(vals)]
        return []
    c = g.pick(SEPARATORS)
    # one or both; the others may come with a mutation
    out = []
    for a, b in [('a' + c + 'b', 'c'), ('a', 'b' + c + 'c')]:
        vals = [None] * len(s.key_nodes)
        vals[i], vals[j] = a, b
        out.append(tuple(vals))
    return out


def gen_entry(g, schema, s, prof, pct, depth, raw, taken, fixed=()):
    keys = [D(k, v if v is not None else
              gen_value(g, schema, k, prof, key=True))
            for k, v in itertools.zip_longest(s.key_nodes, fixed)]
    kv = tuple(k.val for k in keys)
    if kv in taken:
        return None
    taken.add(kv)
    rest = []
    for c in s.children:
        if c.is_key:
            continue
        rest += gen_node(g, schema, c, prof, pct, depth + 1, raw)
    return D(s, None, keys + rest)


def gen_node(g, schema, s, prof, pct, depth, raw):
    p = max(15, pct - 6 * depth)
    if s.kind == 'choice':
        k = g.int(0, len(s.children)) if g.chance(70) else 0
        if k == 0:
            return []
        ca = s.children[k - 1]
        out = []
        for c in ca.children:
            out += gen_node(g, schema, c, prof, 65, depth, raw)
        return out
    if not g.chance(p):
        return []
    if s.kind == 'leaf':
        return [D(s, gen_value(g, schema, s, prof))]
    if s.kind == 'leaf-list':
        if s.default is not None and g.chance(30):
            vals = list(s.default)
            if g.chance(30):
                vals.reverse()
            return [D(s, v) for v in vals]
        n = g.int(1, prof.width)
        vals = []
        if s.type.kind == 'string' and prof.free and g.chance(2):
            vals = ['n%d' % i for i in range(g.int(9, 14))]
            vals = g.shuffle(vals)
        for _ in range(n):
            v = gen_value(g, schema, s, prof, key=True)
            if v not in vals:
                vals.append(v)
        v = near_one(g, prof, s, vals, 10)
        if v is not None and v not in vals:
            vals.append(v)
        return [D(s, v) for v in vals]
    if s.kind == 'container':
        kids = gen_kids(g, schema, s, prof, pct, depth + 1, raw)
        if not kids and not s.presence and not raw:
            return []
        return [D(s, None, kids)]
    if s.kind == 'list':
        taken = set()
        out = []
        for _ in range(g.int(1, prof.width)):
            e = gen_entry(g, schema, s, prof, pct, depth, raw, taken)
            if e is not None:
                out.append(e)
        if len(s.keys) == 1 and string_keys(s) and prof.free and g.chance(2):
            for i in g.shuffle(list(range(g.int(9, 14)))):
                e = gen_entry(g, schema, s, prof, 15, depth + 2, raw, taken,
                              ('n%d' % i,))
                if e is not None:
                    out.append(e)
        if len(string_keys(s)) > 1 and prof.free and g.chance(15):
            for v in g.subset(gen_twins(g, s, None), 80):
                e = gen_entry(g, schema, s, prof, pct, depth, raw, taken, v)
                if e is not None:
                    out.append(e)
        return out
    raise AssertionError(s.kind)


def gen_tree(g, schema, prof, pct=None, raw=False):
    pct = pct or g.pick([45, 30, 60, 75])
    t = gen_kids(g, schema, schema.root, prof, pct, 0, raw)
    return t if raw else normalise(t)


# -- mutation: a second tree close to the first ------------------------------------------

def mutate_tree(g, schema, tree, prof, rate=None, raw=False):
    rate = rate or g.pick([15, 30, 8, 50])
    t = mutate_kids(g, schema, schema.root, tree, prof, rate, 0, raw)
    return t if raw else normalise(t)


def mutate_kids(g, schema, s, kids, prof, rate, depth, raw):
    by = {}
    for d in kids:
        by.setdefault(d.s, []).append(d)
    out = []
    for c in s.children:
        out += mutate_node(g, schema, c, by, prof, rate, depth, raw)
    return out


def present(c, by):
    if c.kind in ('choice', 'case'):
        return any(present(x, by) for x in c.children)
    return bool(by.get(c))


def mutate_node(g, schema, s, by, prof, rate, depth, raw):
    if s.kind == 'choice':
        if g.chance(rate):
            return gen_node(g, schema, s, prof, 60, depth, raw)
        out = []
        for ca in s.children:
            if present(ca, by):
                for c in ca.children:
                    out += mutate_node(g, schema, c, by, prof, rate, depth,
                                       raw)
        return out
    old = by.get(s, [])
    if s.kind == 'leaf':
        if not g.chance(rate):
            return [d.copy() for d in old]
        if old and g.chance(50):
            return []
        v = near_one(g, prof, s, [d.val for d in old], 20)
        if v is not None:
            return [D(s, v)]
        return [D(s, gen_value(g, schema, s, prof))]
    if s.kind == 'container':
        if old:
            if g.chance(rate // 3):
                return []
            kids = mutate_kids(g, schema, s, old[0].kids, prof, rate,
                               depth + 1, raw)
            if not kids and not s.presence and not raw:
                return []
            return [D(s, None, kids)]
        if g.chance(rate):
            return gen_node(g, schema, s, prof, 60, depth, raw)
        return []
    if s.kind == 'leaf-list':
        if not g.chance(rate + 10):
            return [d.copy() for d in old]
        vals = [d.val for d in old if not g.chance(30)]
        for _ in range(g.int(0, 3)):
            v = gen_value(g, schema, s, prof, key=True)
            if v not in vals:
                vals.insert(g.int(0, len(vals)), v)
        v = near_one(g, prof, s, [d.val for d in old], 20)
        if v is not None and v not in vals:
            vals.insert(g.int(0, len(vals)), v)
        if g.chance(40):
            vals = g.shuffle(vals)
        return [D(s, v) for v in vals]
    if s.kind == 'list':
        out = []
        taken = set()
        for d in old:
            if g.chance(rate):
                continue
            keys = [k.copy() for k in d.kids if k.s.is_key]
            rest = []
            b2 = {}
            for x in d.kids:
                b2.setdefault(x.s, []).append(x)
            for c in s.children:
                if not c.is_key:
                    rest += mutate_node(g, schema, c, b2, prof, rate,
                                        depth + 1, raw)
            e = D(s, None, keys + rest)
            taken.add(key_values(e))
            out.append(e)
        if g.chance(rate):
            for _ in range(g.int(1, 2)):
                e = gen_entry(g, schema, s, prof, 45, depth, raw, taken)
                if e is not None:
                    out.insert(g.int(0, len(out)), e)
        if len(string_keys(s)) > 1 and prof.free and old and g.chance(15):
            for v in gen_twins(g, s, g.pick(old)):
                e = gen_entry(g, schema, s, prof, 45, depth, raw, taken, v)
                if e is not None:
                    out.insert(g.int(0, len(out)), e)
        if string_keys(s) and prof.free and old and g.chance(8):
            i = g.pick(string_keys(s))
            v = list(key_values(g.pick(old)))
            v[i] = near_one(g, prof, s.key_nodes[i], [v[i]], 100)
            if v[i] is not None:
                e = gen_entry(g, schema, s, prof, 45, depth, raw, taken, v)
                if e is not None:
                    out.insert(g.int(0, len(out)), e)
        if g.chance(rate + 10):
            out = g.shuffle(out)
        return out
    raise AssertionError(s.kind)


# -- style ------------------------------------------------------------------------------

def shuffler(g):
    """semantic-preserving reordering of siblings: keys stay first in their
    order, ordered-by user entries keep their relative order"""
    def order(kids):
        keys = [d for d in kids if d.s.is_key]
        rest = g.shuffle([d for d in kids if not d.s.is_key])
        user = {}
        for d in kids:
            if d.s.kind in ('list', 'leaf-list') and d.s.user:
                user.setdefault(d.s, []).append(d)
        its = {s: iter(v) for s, v in user.items()}
        return keys + [next(its[d.s]) if d.s in its else d for d in rest]
    return order


def gen_style(g, wraps=('config',), pretty=False, shuffle=True):
    return Style(mode=g.int(0, 3), alias=g.int(0, 3),
                 pretty=pretty and g.chance(50),
                 wrap=g.pick(list(wraps)),
                 order=shuffler(g) if shuffle and g.chance(30) else None,
                 ncprefix=not g.chance(30), iidq=g.int(0, 1),
                 iidws=g.pick([0, 0, 0, g.int(1, 15)]))
