"""Other YANG spellings of a schema.

spell(schema, r) writes the same schema with groupings (local, in submodules,
in a library module), refine, typedefs (chains, in the library), leafrefs,
submodules, augments in submodules, imports under other prefixes, features and
deviations.  The AST stays what the text means.
"""
import random

from .schema import Module, Type

SIMPLE = ('string', 'int', 'boolean', 'enum', 'empty')


class File:
    def __init__(self, sp, name, mod, sub=False):
        self.sp = sp
        self.name = name
        self.mod = mod
        self.sub = sub
        self.imports = {}
        self.includes = []
        self.defs = []          # typedefs, groupings, features
        self.body = []
        self.augs = []
        self.devs = []

    def pref(self, mod):
        if mod is self.mod:
            return ''
        if mod not in self.imports:
            p = mod.prefix
            if self.sp.rate and self.sp.r.random() < 0.3:
                p = 'i-' + p
            self.imports[mod] = p
        return self.imports[mod] + ':'

    def text(self):
        sp = self.sp
        if self.sub:
            o = ['submodule %s {' % self.name, '  yang-version 1.1;',
                 '  belongs-to %s { prefix %s; }' % (self.mod.name,
                                                     self.mod.prefix)]
        else:
            o = ['module %s {' % self.name, '  yang-version 1.1;',
                 '  namespace "%s";' % self.mod.ns,
                 '  prefix %s;' % self.mod.prefix]
        for m, p in self.imports.items():
            o.append('  import %s { prefix %s; }' % (m.name, p))
        for i in self.includes:
            o.append('  include %s;' % i)
        o.append('  revision %s;' % sp.schema.revision.get(self.name,
                                                           '2024-01-01'))
        # how it is written has a random source of its own
        r = random.Random(sp.r.random())
        if r.random() < 0.6:
            r = None
        elif r.random() < 0.5:
            o.insert(r.randrange(len(o) + 1), '/* module %s {\n } */' %
                     self.name)
            o.insert(0, '// submodule x {')
        for s in self.defs + self.body + self.augs + self.devs:
            write(s, o, 2, r)
        o.append('}')
        out = '\n'.join(o) + '\n'
        if r is not None and r.random() < 0.3:
            out = out.replace('\n', '\r\n')
        return out


def quoted(arg, r):
    """the same argument in another form"""
    if arg[0] not in '"\'':
        k = r.randrange(4)
        return [arg, '"%s"' % arg, "'%s'" % arg, arg][k]
    if arg[0] == '"' and arg[-1] == '"' and not set(arg[1:-1]) & set('"\\'):
        t = arg[1:-1]
        i = r.randrange(len(t) + 1)
        return r.choice([
            arg, '"%s" + "%s"' % (t[:i], t[i:]),
            '"%s"\n  +  "%s"' % (t[:i], t[i:])] + (
                [] if "'" in t else ["'%s'" % t,
                                     "\"%s\" + '%s'" % (t[:i], t[i:])]))
    return arg


def write(s, o, ind, r=None):
    kw, arg, subs = s
    p = ' ' * ind + kw
    odd = r is not None and r.random() < 0.15
    if arg is not None:
        if odd:
            arg = quoted(arg, r)
        p += r.choice([' ', '  ', '\t', '\n', ' /* ; } */ ', ' // {\n']) \
            if odd else ' '
        p += arg
    if odd and r.random() < 0.2:
        o.append(r.choice(['// leaf x { type string; }', '/* } */',
                           '/* container c { */', '']))
    if not subs:
        o.append(p + r.choice([';', ' ;', '\n;', ' { }', ' { /* ; */ }',
                               '; // "'] if odd else [';'])
                 if r is not None else p + ';')
        return
    o.append(p + (r.choice([' {', '{', '\n{', ' { // "'])
                  if odd else ' {'))
    if odd and kw in ('container', 'list', 'leaf', 'leaf-list', 'choice',
                      'case', 'grouping', 'typedef') and \
            not any(x[0] == 'description' for x in subs):
        o.append('description %s;' % r.choice([
            '"{ } ; // /* leaf x"', "'{ \"'", '"\\"; }"', '"a\n\n  b"',
            '"\u00e9 <&> ]]>"']))
    for x in subs:
        write(x, o, ind + 2, r)
    o.append(' ' * ind + '}')


def r_sample(r, seq):
    return [x for x in seq if r.random() < 0.5]


def shown(n):
    return [n]


def q(x):
    return '"%s"' % x


class Speller:
    def __init__(self, schema, r, rate=0.35):
        self.schema = schema
        self.r = r
        self.rate = rate
        self.n = 0
        self.depth = 0              # nested groupings
        self.files = []
        self.main = {}
        self.subs = {}
        self.lib = None
        self.dev = None
        self.leafrefs = set()       # leaves written as leafref
        self.typedefs = {}          # SNode -> local name of its type
        self.members = {}           # SNode -> member types of its union
        self.deferred = []          # deviations
        self.features = {}
        self.used_features = {}     # SNode -> set of feature names
        self.moved = set()          # nodes an augment of a uses adds
        self.scopes = []            # (File, statements) or None
        self.companions = {}        # Identity -> name of a second base

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def chance(self, x=1.0):
        return self.r.random() < self.rate * x

    def scope(self, F):
        """where definitions go: the node around, or the file"""
        if self.scopes and self.scopes[-1] and self.scopes[-1][0] is F and \
           self.r.random() < 0.5:
            return self.scopes[-1][1]
        return F.defs

    def get_lib(self):
        if self.lib is None:
            self.lib = File(self, 'vp-lib', Module('vp-lib', 'lib',
                                                   'urn:vp:lib'))
            self.files.append(self.lib)
        return self.lib

    def get_dev(self):
        if self.dev is None:
            self.dev = File(self, 'vp-dev', Module('vp-dev', 'dev',
                                                   'urn:vp:dev'))
            self.files.append(self.dev)
        return self.dev

    def sub_safe(self, n, m):
        # pyang resolves identities of the module in the module only
        if n.type is not None and n.type.kind == 'idref' and \
           n.type.arg.mod is m:
            return False
        return all(self.sub_safe(c, m) for c in n.children if c.mod is m)

    def place(self, n):
        """a file of its module"""
        if not self.sub_safe(n, n.mod):
            return self.main[n.mod]
        return self.r.choice([self.main[n.mod]] + self.subs[n.mod])

    def defs_total(self):
        return [d for f in self.files for d in f.defs + f.devs
                if d[0] in ('grouping', 'typedef', 'deviation')] + \
            [f for f in self.files if f.sub]

    def own(self, F, mod):
        """prefix of an identity; that of the module itself is optional"""
        if mod is F.mod and self.rate and self.r.random() < 0.3:
            return mod.prefix + ':'
        return F.pref(mod)

    # -- types -----------------------------------------------------------------
    def portable(self, t):
        return t.kind in SIMPLE or (t.kind == 'union' and
                                    all(self.portable(u) for u in t.arg))

    def typ(self, t, F, n=None):
        """type statement; n: the leaf"""
        if n is not None and self.chance():
            ref = self.leafref(n, F)
            if ref:
                self.leafrefs.add(n)
                return ('type', 'leafref', [('path', q(ref), []),
                                            ('require-instance', 'false',
                                             [])])
        if self.chance():
            D = F
            if self.portable(t) and self.chance() and \
               F.name not in ('vp-lib', 'vp-dev'):
                D = self.get_lib()
            name = self.fresh('t')
            home = self.scope(F) if D is F else D.defs
            if home is D.defs:
                self.scopes.append(None)
            home.append(('typedef', name, [self.typ(t, D)]))
            if home is D.defs:
                self.scopes.pop()
            local = F.pref(D.mod) + name
            if n is not None:
                self.typedefs[n] = local
            return ('type', local, [])
        k = t.kind
        if k == 'enum' and self.chance():
            # part of a larger enumeration
            name = self.fresh('t')
            pos = self.r.randint(0, len(t.arg))
            self.scope(F).append(('typedef', name, [('type', 'enumeration', [
                ('enum', q(e), []) for e in t.arg[:pos] + ['not-this'] +
                t.arg[pos:]])]))
            if n is not None:
                self.typedefs[n] = name
            return ('type', name, [('enum', q(e), []) for e in t.arg])
        if k in ('string', 'boolean', 'empty'):
            return ('type', k, [])
        if k == 'int':
            return ('type', 'int32', [])
        if k == 'enum':
            return ('type', 'enumeration', [('enum', q(e), [])
                                            for e in t.arg])
        if k == 'idref':
            bases = [t.arg.name]
            if t.arg in self.companions and self.chance(2):
                bases.insert(self.r.randint(0, 1), self.companions[t.arg])
            return ('type', 'identityref', [
                ('base', self.own(F, t.arg.mod) + b, []) for b in bases])
        if k == 'iid':
            return ('type', 'instance-identifier',
                    [('require-instance', 'false', [])])
        if k == 'union':
            subs = [self.typ(u, F) for u in t.arg]
            if n is not None:
                self.members[n] = '|'.join(x[1] for x in subs)
            return ('type', 'union', subs)
        raise AssertionError(k)

    def leafref(self, n, F):
        """path of another leaf of the same type"""
        # pyang resolves paths in groupings before all is expanded
        if self.depth or F.name in ('vp-lib', 'vp-dev') or F.sub or n.kind != 'leaf' or \
           n.default is not None or n.type.kind == 'empty':
            return None
        for c in self.leaves:
            if c is n or c in self.leafrefs or c.kind != 'leaf' or \
               c.mod is not n.mod or c not in self.done or \
               c.type.kind != n.type.kind or c.type.arg is not n.type.arg:
                continue
            p, path, ok = c, [], True
            while p.kind != 'root':
                # pyang does not look into choices at the top
                if p.mod is not n.mod or p.status or \
                   (p.parent.kind == 'root' and p.kind == 'choice') or \
                   p.effective_config != n.effective_config:
                    ok = False
                    break
                if p.kind not in ('choice', 'case'):
                    path.append(p.name)
                p = p.parent
            if ok:
                pre = n.mod.prefix + ':' if self.r.random() < 0.5 else ''
                return '/' + '/'.join(pre + x for x in reversed(path))
        return None

    # -- nodes -----------------------------------------------------------------
    def subtree_portable(self, n, m):
        if n.type is not None and not self.portable(n.type):
            return False
        return all(self.subtree_portable(c, m) for c in n.children
                   if c.mod is m)

    def kids(self, n, m, F):
        return self.group([c for c in n.children if c.mod is m and
                           c not in self.moved], m, F)

    def group(self, cs, m, F, home=None):
        """statements of sibling nodes, some of them through a grouping"""
        out = []
        if cs and self.chance(0.8):
            i = self.r.randrange(len(cs))
            j = self.r.randint(i + 1, len(cs))
            chunk = cs[i:j]
            chunk = [c for c in chunk if c.kind != 'case']
            if chunk and len(chunk) == j - i and not any(
                    c.kind in ('input', 'output') for c in chunk):
                name = self.fresh('g')
                D = F
                if F.name not in ('vp-lib', 'vp-dev'):
                    if all(self.subtree_portable(c, m) for c in chunk) and \
                       self.chance():
                        D = self.get_lib()
                    elif self.subs[m] and F is self.main[m] and \
                            all(self.sub_safe(c, m) for c in chunk) and \
                            self.chance():
                        D = self.r.choice(self.subs[m])
                refines = []
                body = []
                home = self.scope(F) if D is F else D.defs
                augs = []
                for c in chunk:
                    sub = [x for x in c.children if x.mod is m and
                           x.kind != 'case' and not x.is_key]
                    if c.kind in ('container', 'list') and self.chance():
                        sub = r_sample(self.r, sub)
                        self.moved.update(sub)
                        augs.append((c, sub))
                self.depth += 1
                if home is D.defs:
                    self.scopes.append(None)
                for c in chunk:
                    body += self.node(c, m, D, refines if c.kind == 'leaf'
                                      else None, F)
                self.depth -= 1
                if home is D.defs:
                    self.scopes.pop()
                home.append(('grouping', name, body))
                subs = [('refine', q(x), s) for x, s in refines]
                self.depth += 1
                for c, sub in augs:
                    if sub:
                        st = []
                        if F is self.main.get(m) and self.chance(0.4):
                            f = self.feature(m, 2)
                            st.append(('if-feature', q(f), []))
                            for x in sub:
                                for y in shown(x):
                                    self.used_features.setdefault(
                                        y, set()).add(f)
                        subs.append(('augment', q(c.name), st +
                                     self.group(sub, m, F)))
                self.depth -= 1
                uses = ('uses', F.pref(D.mod) + name, subs)
                return (self.group(cs[:i], m, F) + [uses] +
                        self.group(cs[j:], m, F))
        for c in cs:
            out += self.node(c, m, F)
        return out

    def node(self, n, m, F, refines=None, user=None):
        if n.kind == 'case' and n.shorthand:
            return sum((self.node(c, m, F) for c in n.children
                        if c.mod is m), [])
        s = []
        late = []
        if n.kind == 'list' and n.keys:
            sep = self.r.choice([' ', '  ', '\n          ', '\t', ' \n ']) \
                if self.rate else ' '
            s.append(('key', q(sep.join(n.keys)), []))
        if n.kind in ('list', 'leaf-list'):
            if n.user:
                s.append(('ordered-by', 'user', []))
            elif self.r.random() < 0.1 and n.effective_config:
                s.append(('ordered-by', 'system', []))
        if n.presence:
            s.append(('presence', '"yes"', []))
        if n.kind in ('leaf', 'leaf-list'):
            wrong = n.kind == 'leaf' and n.default is None and \
                self.portable(n.type) and self.deviable(n) and \
                self.chance(0.3)
            if wrong:
                D = self.get_dev()
                s.append(('type', 'binary', []))
                self.scopes.append(None)
                self.deferred.append((n, 'replace',
                                      [self.typ(n.type, D, n)]))
                self.scopes.pop()
                if n in self.typedefs:
                    # as pyang writes it
                    self.typedefs[n] = '%s:%s' % (D.mod.prefix,
                                                  self.typedefs[n])
            else:
                s.append(self.typ(n.type, F, n))
            if n.kind == 'leaf' and n.default is None and not wrong and \
               not n.mandatory and n.type.kind == 'string' and \
               n not in self.leafrefs and n not in self.typedefs and \
               not n.is_key and self.deviable(n) and self.chance(0.3):
                st = [('default', '"not this"', [])]
                s += st
                self.deferred.append((n, 'delete', st))
        if n.default is not None:
            ds = n.default if isinstance(n.default, list) else [n.default]

            def st_in(F):
                return [('default', q(
                    self.own(F, self.schema.by_name[d[1]]) + d[2]
                    if isinstance(d, tuple) else d), []) for d in ds]
            st = st_in(F)
            if refines is not None and self.chance(2):
                late += st_in(user)
                if n.kind != 'choice' and n.type.kind == 'string' and \
                   self.r.random() < 0.5:
                    s.append(('default', '"other"', []))
            elif self.deviable(n) and self.chance(0.7):
                what = 'add'
                if n.kind == 'leaf' and n.type.kind == 'string' and \
                   self.r.random() < 0.5:
                    what = 'replace'
                    s.append(('default', '"not this"', []))
                self.deferred.append((n, what, st_in(self.get_dev())))
            else:
                s += st
        if n.config is not None:
            st = [('config', 'true' if n.config else 'false', [])]
            if refines is not None and self.chance(2):
                late += st
            else:
                s += st
        if n.mandatory:
            st = [('mandatory', 'true', [])]
            if refines is not None and self.chance(2):
                late += st
            elif n.kind == 'leaf' and self.deviable(n) and self.chance(0.7):
                self.deferred.append((n, 'add', st))
            else:
                s += st
        if n.status:
            s.append(('status', n.status, []))
        elif n.kind not in ('input', 'output') and \
                self.r.random() < 0.05 and not self.under_status(n):
            s.append(('status', 'current', []))
        if n.kind in ('leaf', 'container', 'leaf-list') and \
           not n.is_key and F is self.main.get(m) and self.chance(0.3):
            f = self.feature(m)
            s.append(('if-feature', q(f), []))
            self.used_features.setdefault(n, set()).add(f)
        if n.desc:
            s.append(('description', q(n.desc), []))
        if late:
            refines.append((n.name, late))
        if n.kind in ('leaf', 'leaf-list'):
            self.done.add(n)
        inner = []
        if n.kind in ('container', 'list'):
            self.scopes.append((F, inner))
        kids = self.kids(n, m, F)
        if n.kind in ('container', 'list'):
            self.scopes.pop()
            kids = inner + kids
        if n.kind == 'container' and self.deviable(n) and self.chance(0.3):
            # a node that a deviation takes away
            x = self.fresh('gone')
            kids.append(('leaf', x, [('type', 'string', [])]))
            self.deferred.append((n, 'gone', x))
        name = None if n.kind in ('input', 'output') else n.name
        return [(n.kind, name, s + kids)]

    def feature(self, m, i=0):
        f = self.features.get((m, i))
        if f is None:
            f = self.features[(m, i)] = self.fresh('feat')
            self.main[m].defs.append(('feature', f, []))
        return f

    def deviable(self, n):
        """deviations of pyang work on nodes that are in one module"""
        p = n
        while p.kind != 'root':
            if p.mod is not n.mod:
                return False
            if p.parent.kind == 'list' and p.name in p.parent.keys:
                return False
            p = p.parent
        return n.kind in ('leaf', 'container')

    @staticmethod
    def under_status(n):
        p = n.parent
        while p.kind != 'root':
            if p.status:
                return True
            p = p.parent
        return False

    def path(self, n, F, own=True):
        parts = []
        while n.kind != 'root':
            pre = F.pref(n.mod)
            if not pre:
                pre = n.mod.prefix + ':'
            parts.append(pre + n.name)
            n = n.parent
        return '/' + '/'.join(reversed(parts))

    # -- all -------------------------------------------------------------------
    def spell(self):
        sch, r = self.schema, self.r
        self.leaves = [n for n in sch.root.walk() if n.kind == 'leaf']
        self.done = set()
        for m in sch.modules:
            F = File(self, m.name, m)
            self.main[m] = F
            self.files.append(F)
            self.subs[m] = []
            for _ in range(r.choice([0, 0, 1, 2]) if self.rate else 0):
                S = File(self, '%s-sub%d' % (m.name,
                                             len(self.subs[m]) + 1), m, True)
                self.subs[m].append(S)
                self.files.append(S)
                F.includes.append(S.name)
        for i in sch.identities:
            if self.chance():
                self.companions[i] = self.fresh('also')
        files = {}
        for i in sch.identities:
            # pyang resolves identities of the module in one file only
            inner = {files[b] for b in i.bases if b.mod is i.mod}
            F = self.main[i.mod]
            if i.bases and self.subs[i.mod] and i not in self.companions:
                if not inner and self.chance(2):
                    F = r.choice(self.subs[i.mod])
                elif len(inner) == 1:
                    F = inner.pop()
            files[i] = F
            bases = []
            for b in i.bases:
                names = [b.name]
                if b in self.companions:
                    names.insert(r.randint(0, 1), self.companions[b])
                bases += [('base', self.own(F, b.mod) + x, []) for x in names]
            F.defs.append(('identity', i.name, bases))
            if i in self.companions:
                c = self.companions[i]
                F.defs.append(('identity', c, []))
                F.defs.append(('identity', self.fresh('stray'),
                               [('base', self.own(F, i.mod) + c, [])]))
        for n in sch.root.children:
            F = self.place(n)
            F.body += self.group([n], n.mod, F)
        if sch.extra is not None:
            for n in sch.extra.children:
                F = self.place(n)
                F.body += self.node(n, n.mod, F)
        augs = {}
        for n, c in sch._augments():
            F = self.place(c)
            key = (F, n)
            if key not in augs or r.random() < 0.3:
                st = []
                if F is self.main[F.mod] and self.chance(0.6):
                    st.append(('if-feature', q(self.feature(F.mod, 1)), []))
                augs[key] = ('augment', q(self.path(n, F)), st)
                F.augs.append(augs[key])
            st = augs[key][2]
            if st and st[0][0] == 'if-feature':
                self.used_features.setdefault(c, set()).add(
                    self.feature(F.mod, 1))
            st.extend(self.group([c], c.mod, F))
        for n, what, st in self.deferred:
            F = self.get_dev()
            if what == 'gone':
                F.devs.append(('deviation', q(self.path(n, F) + '/' +
                                              F.pref(n.mod) + st),
                               [('deviate', 'not-supported', [])]))
            else:
                F.devs.append(('deviation', q(self.path(n, F)),
                               [('deviate', what, st)]))
        return {F.name: F.text() for F in self.files}


def spell(schema, r, rate=0.35):
    sp = Speller(schema, r, rate)
    out = sp.spell()
    return out, sp
