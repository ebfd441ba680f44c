"""From data to schema and back: schema nodes, paths, statements, defaults."""
import os

from lxml import etree

from .common import *
from vp.data import split

CASES = {'quick': 1500, 'thorough': 14000}
RULE = 'the config has list entries or nodes inside of choices'


def generator(ctx):
    names = pool(ctx.seed, ctx.shard, 8 if ctx.tier == 'quick' else 60,
                 's' if ctx.shard % 2 else '')
    prof = Profile(both_quotes=True)

    def gen(g):
        name = g.pick(names)
        sch = schema(name)
        tree = gen_tree(g, sch, prof, g.pick([45, 60, 75]))
        st = gen_style(g)
        if st.alias == 3:
            # XPath compares texts: a prefix has to mean the same everywhere
            st.alias = 2
        return {'schema': name, 'xml': render(sch, tree, st),
                'node': g.int(0, 10 ** 6)}
    return gen


def ast_path(s):
    out = []
    while s.kind != 'root':
        out.append(s)
        s = s.parent
    return out[::-1]


def data_path(s):
    return [x for x in ast_path(s) if x.kind not in ('choice', 'case')]


def literal(v):
    if '"' not in v:
        return '"%s"' % v
    if "'" not in v:
        return "'%s'" % v
    return None


def steps(path, how, values=None, instance=True, model=None):
    """reference of get_xpath; None when a value cannot be written"""
    out = ''
    last = None
    for i, s in enumerate(path):
        def name(x, last):
            if how == 'ytool':
                return x.name if x.mod.name == model else \
                    x.mod.prefix + ':' + x.name
            if how == 'lxml' or x.mod is not last:
                return {'json': x.mod.name}.get(how, x.mod.prefix) + ':' + \
                    x.name
            return x.name
        if how == 'ytool' and not out:
            out = model
        out += '/' + name(s, last)
        last = s.mod
        if values and how != 'ytool' and (instance or i < len(path) - 1):
            e = values[i]
            if s.kind == 'leaf-list':
                if not e.text:
                    return None
                v = literal(e.text)
                if v is None:
                    return None
                out += '[text()=%s]' % v
            elif s.kind == 'list':
                for k in s.key_nodes:
                    v = literal(e.find(k.tag).text or '')
                    if v is None:
                        return None
                    out += '[%s=%s]' % (name(k, last), v)
    return out


def compiled(dev, s):
    """the element of the compiled tree, by an own walk"""
    p = ast_path(s)
    e = dev.models[p[0].mod.name].tree
    for x in p:
        hit = [c for c in e if c.tag == x.tag]
        if len(hit) != 1:
            raise Violation('compiled model has %d nodes %s' % (
                len(hit), x.name))
        e = hit[0]
    return e


def expect_defaults(s):
    out = []
    for c in s.children:
        if c.kind in ('leaf', 'leaf-list'):
            if c.default is not None:
                out.append(c)
        elif c.kind == 'choice':
            if c.default is not None:
                k = [x for x in c.children if x.name == c.default]
                if k:
                    out.append(k[0])
                    out += expect_defaults(k[0])
        elif c.kind == 'container' and not c.presence:
            out += expect_defaults(c)
    return out


def check(ctx, case):
    from ncdiff import Config, Tag
    sch = schema(case['schema'])
    dev = device(case['schema'])
    cfg = mkconfig(dev, case['xml'])
    # -- the config as a whole
    roots = {c.tag: [r for r in sch.root.data_children
                     if r.tag == c.tag][0] for c in cfg.ele}
    roots = {t: ast_path(s)[0].mod.name for t, s in roots.items()}
    with sut('roots, models and ns'):
        require(cfg.roots == roots, 'roots is %r, should be %r', cfg.roots,
                roots)
        require(cfg.models == sorted(set(roots.values())), 'models is %r',
                cfg.models)
        ns = cfg.ns
    by = {u: p for p, u in ns.items()}
    require(len(by) == len(ns), 'a namespace has two prefixes: %r', ns)
    for e in cfg.ele.iter():
        require(split(e.tag)[0] in by, 'namespace of %s is not in ns', e.tag)
    for m in sch.modules:
        require(by.get(m.ns, m.prefix) == m.prefix, 'prefix of %s is %s',
                m.name, by.get(m.ns))
    # -- nodes of the config
    interesting = False
    elements = [e for e in cfg.ele.iterdescendants()]
    n = case['node']
    if len(elements) > 14:
        elements = [elements[(n + i * 7919) % len(elements)]
                    for i in range(14)]
    compiled_last = sch.models[-1]
    for e in elements:
        values = [a for a in reversed(list(e.iterancestors()))][1:] + [e]
        s = sch.root
        path = []
        for v in values:
            s = s.child(*split(v.tag))
            path.append(s)
        what = '/'.join(x.name for x in path)
        if s.kind in ('list', 'leaf-list') or \
           any(x.kind == 'case' for x in ast_path(s)):
            interesting = True
        want = compiled(dev, s)
        with sut('navigation from %s' % what):
            got = dev.get_schema_node(e)
            got2 = cfg.get_schema_node(e)
            name = dev.get_model_name(e)
            name2 = cfg.get_model_name(e)
            full = [dev.get_xpath(e, type=t) for t in (
                Tag.LXML_XPATH, Tag.XPATH, Tag.JSON_NAME, Tag.JSON_PREFIX,
                Tag.YTOOL)]
            bare = dev.get_xpath(e, type=Tag.LXML_XPATH, instance=False)
            stmt = dev.get_statement(e)
        require(got is want and got2 is want, '%s: get_schema_node is %r',
                what, got)
        require(name == name2 == ast_path(s)[0].mod.name,
                '%s: get_model_name is %r, %r', what, name, name2)
        for g, how in zip(full, ('lxml', 'xpath', 'json', 'xpath', 'ytool')):
            w = steps(path, how, values, model=name)
            require(w is None or g == w, '%s: get_xpath is %r, should be %r',
                    what, g, w)
        w = steps(path, 'lxml', values, instance=False)
        require(w is None or bare == w, '%s: get_xpath without instance is '
                '%r, should be %r', what, bare, w)
        for x, one in ((full[0], True), (bare, False)):
            with sut('xpath(%s)' % x):
                hit = cfg.xpath('/nc:config' + x)
                hit2 = cfg.xpath('/nc:config' + x, namespaces=ns)
            require(hit == hit2, 'xpath depends on who names the prefixes')
            if one:
                require(hit == [e], '%s: %s addresses %d nodes', what, x,
                        len(hit))
            else:
                require(hit == [k for k in e.getparent()
                                if k.tag == e.tag],
                        '%s: %s addresses %d nodes', what, x, len(hit))
        statement(stmt, s, what, ast_path(s)[0].mod.name == compiled_last)
    # -- nodes of the schema
    nodes = list(sch.root.walk())
    for i in range(3):
        s = nodes[(n + i * 7919) % len(nodes)]
        path = ast_path(s)
        what = 'schema node ' + '/'.join(x.name for x in path)
        want = compiled(dev, s)
        with sut('navigation from %s' % what):
            x = dev.get_xpath(want, type=Tag.LXML_XPATH)
            y = dev.get_xpath(want)
            j = dev.get_xpath(want, type=Tag.JSON_NAME)
            yt = dev.get_xpath(want, type=Tag.YTOOL)
            name = dev.get_model_name(want)
            stmt = dev.get_statement(want)
            default = dev.default_in_use(want)
        for g, how in ((x, 'lxml'), (y, 'xpath'), (j, 'json'),
                       (yt, 'ytool')):
            w = steps(path, how, model=path[0].mod.name)
            require(g == w, '%s: get_xpath is %r, should be %r', what, g, w)
        hit = dev.models[ast_path(s)[0].mod.name].tree.xpath(
            '/*' + x, namespaces={m.prefix: m.ns for m in sch.modules})
        require(hit == [want], '%s: %s addresses %r', what, x, hit)
        require(name == ast_path(s)[0].mod.name, '%s: model is %r', what, name)
        statement(stmt, s, what, ast_path(s)[0].mod.name == compiled_last)
        exp = [compiled(dev, k) for k in expect_defaults(s)]
        require(sorted(map(id, default)) == sorted(map(id, exp)),
                '%s: default_in_use has %r, should have %r', what,
                [k.tag for k in default], [k.tag for k in exp])
        if exp:
            ctx.label('defaults')
    return interesting


def statement(stmt, s, what, must):
    if stmt is None:
        require(not must, '%s: there is no statement', what)
        return
    kind = s.kind
    require((stmt.keyword, stmt.arg) == (kind, s.name),
            '%s: statement is %s %s', what, stmt.keyword, stmt.arg)
    path = []
    x = stmt
    while x.keyword not in ('module', 'submodule'):
        if x.keyword in ('container', 'list', 'choice', 'case', 'leaf',
                         'leaf-list'):
            path.append(x.arg)
        x = x.parent
    require(path[::-1] == [k.name for k in ast_path(s)][-len(path):],
            '%s: statement is at %r', what, path[::-1])
