"""A compiled model says what the YANG modules say, however they are written."""
import random
import re

from .common import *
from vp import modelgen
from vp.device import scratch, write_yang
from vp.gen import random_schema, rich
from vp.modelgen import expected, compiled_children
from vp.yangtext import spell
import shutil

CASES = {'quick': 150, 'thorough': 4000}
RULE = 'the YANG text has a grouping, typedef, submodule, augment or deviation'


def generator(ctx):
    def gen(g):
        return {'schema': g.int(0, 10 ** 6), 'spelling': g.int(0, 10 ** 6),
                'rate': g.pick([0, 20, 35, 60]),
                'rich': g.int(0, 9) == 0}
    return gen


def build(case):
    s = case['schema']
    sch = rich() if case['rich'] else random_schema(
        s, status=s % 2 == 0, readonly=s % 3 == 0)
    modelgen.enrich(sch, random.Random(s))
    yang, sp = spell(sch, random.Random(case['spelling']),
                     case['rate'] / 100)
    return sch, yang, sp


def loaded_with(sp, m):
    """modules that a compilation of m has to look at"""
    out = {m}
    for f in sp.files:
        if f.mod is m:
            out |= set(f.imports)
        if m in f.imports:
            out.add(f.mod)
    return out


def compare(sch, sp, m, n, e, path, loaded):
    what = '%s in model %s' % (path, m.name)
    for k, v in expected(n, sp).items():
        got = e.get(k)
        if k == 'key' and got is not None:
            got = ' '.join(got.split())
        require(got == v, '%s: %s is %r, should be %r', what, k, got, v)
    f = (e.get('if-feature') or '').split()
    if not (n.kind == 'case' and n.shorthand):
        require(sorted(f) == sorted(sp.used_features.get(n, ())),
                '%s: features are %r, should be %r', what, f,
                sp.used_features.get(n))
    if n.kind in ('leaf', 'leaf-list') and n.type.kind == 'idref' and \
       n not in sp.leafrefs:
        if n not in sp.typedefs:
            require((e.get('datatype') or '').startswith('identityref:'),
                    '%s: datatype is %r', what, e.get('datatype'))
        got = [x for x in (e.get('values') or '').split('|') if x]
        der = sch.derived(n.type.arg)
        must = {'%s:%s' % (i.mod.prefix, i.name) for i in der
                if i.mod in loaded}
        may = {'%s:%s' % (i.mod.prefix, i.name) for i in der}
        require(must <= set(got) <= may, '%s: identities %r, should be %r',
                what, got, sorted(must))
        require(len(got) == len(set(got)), '%s: identities twice: %r', what,
                got)
    if n.kind == 'choice':
        # short cases and those of augments may or may not be named
        got = [x for x in (e.get('values') or '').split('|') if x]
        may = {c.name for c in n.children}
        must = {c.name for c in n.children if c.mod is n.mod and
                not c.shorthand}
        require(must <= set(got) <= may and len(got) == len(set(got)),
                '%s: cases %r, should be %r', what, got, sorted(must))
    children(sch, sp, m, compiled_children(n), e, path, loaded)


def children(sch, sp, m, want, e, path, loaded):
    got = {}
    for c in e:
        require(c.tag not in got, '%s has the child %s twice', path, c.tag)
        got[c.tag] = c
    wt = {c.tag: c for c in want}
    require(set(got) == set(wt), '%s in model %s has children %r, should '
            'have %r', path, m.name, sorted(set(got) - set(wt)),
            sorted(set(wt) - set(got)))
    for t, c in wt.items():
        compare(sch, sp, m, c, got[t], path + '/' + c.name, loaded)


LINE = re.compile(r'^ ([| ]  )*\+--(-x|-n|-w|rw|ro|)( |:)(.*)$')


def check_text(m, model, sch):
    """str(): every node of the tree once, at its depth"""
    with sut('str(Model)'):
        text = str(model)
    lines = text.split('\n')
    require(lines[0] == 'module: ' + m.name, 'str() begins with %r', lines[0])
    groups = [[c for c in model.tree if c.get('type') not in
               ('rpc', 'notification')]]
    for k in ('rpc', 'notification'):
        groups.append([c for c in model.tree if c.get('type') == k])
    want = []
    for title, grp in zip((None, '  rpcs:', '  notifications:'), groups):
        if grp and title:
            want += ['', title]
        for root in grp:
            for x in root.iter():
                want.append(x)
    require(len(lines) - 1 == len(want), 'str() of model %s has %d lines, '
            'should have %d', m.name, len(lines) - 1, len(want))
    for line, x in zip(lines[1:], want):
        if isinstance(x, str):
            require(line == x, 'str(): %r should be %r', line, x)
            continue
        depth = len(list(x.iterancestors()))
        k = LINE.match(line)
        require(k, 'str(): malformed line %r', line)
        bar = line.index('+--')
        require(bar == 1 + 3 * depth, 'str(): wrong depth: %r', line)
        for i, a in enumerate(reversed(list(x.iterancestors()))):
            after = list(a.itersiblings())
            if i == 1:
                kind = a.get('type') if a.get('type') in \
                    ('rpc', 'notification') else None
                after = [s for s in after if kind == (
                    s.get('type') if s.get('type') in
                    ('rpc', 'notification') else None)]
            require((line[1 + 3 * i] == '|') == bool(after),
                    'str(): wrong line at column %d of %r', 1 + 3 * i, line)
        t = x.get('type')
        flag = {'rpc': '-x', 'notification': '-n'}.get(t) or \
            {'write': '-w', 'read-write': 'rw', 'read-only': 'ro'}[
                x.get('access')]
        if t == 'case':
            flag = ''
        require(k.group(2) == flag, 'str(): flags of %r should be %r', line,
                flag)
        ns, name = x.tag[1:].split('}')
        mod = sch.by_ns[ns]
        if mod is not m:
            name = mod.prefix + ':' + name
        opt = '' if x.get('mandatory') == 'true' else '?'
        name = {'choice': '(%s)%s' % (name, opt),
                'case': '(%s)' % name,
                'leaf': name + opt, 'anyxml': name + opt,
                'anydata': name + opt, 'leaf-list': name + '*',
                'list': name + '*' + (' [%s]' % x.get('key')
                                      if x.get('key') else '')}.get(t, name)
        rest = k.group(4)
        require(rest == name or rest.startswith(name + ' '),
                'str(): %r should name %r', line, name)
        dt = '<%s>' % t if t in ('anyxml', 'anydata') else \
            x.get('datatype') or ''
        f = x.get('if-feature')
        dt += ' {%s}?' % f if f else ''
        require(rest[len(name):].strip() == dt.strip(),
                'str(): %r should end in %r', line, dt)


def check(ctx, case):
    from ncdiff.model import ModelCompiler
    sch, yang, sp = build(case)
    d = scratch()
    try:
        write_yang(yang, d)
        with sut('ModelCompiler'):
            comp = ModelCompiler(d)
        for m in sch.modules:
            with sut('compile(%s)' % m.name):
                model = comp.compile(m.name)
            require(model.name == m.name and model.url == m.ns and
                    model.prefix == m.prefix,
                    'model %s is %r %r %r', m.name, model.name, model.url,
                    model.prefix)
            want = [c for c in sch.root.children if c.mod is m] + \
                [c for c in sch.extra.children if c.mod is m]
            children(sch, sp, m, want, model.tree, '', loaded_with(sp, m))
            roots = [c.tag for c in sch.root.data_children
                     if c.data_parent is sch.root and top(c).mod is m] + \
                [c.tag for c in sch.extra.children if c.mod is m]
            require(sorted(model.roots) == sorted(roots),
                    'roots of %s are %r, should be %r', m.name, model.roots,
                    roots)
            check_text(m, model, sch)
        for f in sp.files:
            if f.sub:
                refused(comp, f)
        with sut('dependencies'):
            for f in sp.files:
                imp, dep = comp.get_dependencies(f.name)
                require(imp == {x.name for x in f.imports},
                        'imports of %s are %r', f.name, imp)
                users = {x.name for x in sp.files
                         if not f.sub and f.mod in x.imports or
                         f.name in x.includes}
                require(users <= dep, 'modules that depend on %s are %r',
                        f.name, dep)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.label('files=%d' % min(len(yang), 8))
    return len(sp.defs_total()) > 0 or any(f.augs for f in sp.files)


def refused(comp, f):
    """a submodule is not a module"""
    with sut('compile(%s)' % f.name):
        try:
            comp.compile(f.name)
        except ValueError as e:
            require(f.mod.name in str(e), 'compile(%s) does not say to which '
                    'module it belongs: %s', f.name, e)
            return
    require(False, 'compile() accepts the submodule %s', f.name)


def top(n):
    while n.parent.kind != 'root':
        n = n.parent
    return n
