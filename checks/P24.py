"""The options of a delta decide its form, and a delta mentions only what
changes."""
from lxml import etree

from .common import *
from vp.data import parse_value, split
from vp.schema import YANG_NS
from vp.server import OP

CASES = {'quick': 2500, 'thorough': 60000}
RULE = 'the delta is not empty, and has an operation or more than three nodes'


OPS = ['merge', 'create', 'replace', 'delete', 'remove', 'none', '', 'Merge',
       None, 3]
BAD = [[k, v] for k, ok in (
    ('preferred_create', ('merge', 'create', 'replace')),
    ('preferred_replace', ('merge', 'replace')),
    ('preferred_delete', ('delete', 'remove'))) for v in OPS
    if v not in ok] + [
    ['random_depth', v] for v in (-1, -7, '1', 1.5, [1])] + [
    ['random_seed', v] for v in ('1', 1.5, [1])] + [
    ['config_src', v] for v in ('src', None, 3)] + [
    ['config_dst', v] for v in ('src', 3, [])] + [
    ['delta', v] for v in (3, [], True)]


def refused(src, dst, opts, bad):
    """values that no option has"""
    from ncdiff import ConfigDelta
    k, v = bad
    if v == 'src':
        v = str(src)
    error = TypeError if k in ('config_src', 'config_dst', 'delta') else \
        ValueError
    kw = dict(config_src=src, config_dst=dst, **opts)
    if k == 'random_seed':
        kw['random_depth'] = 1
    kw[k] = v

    def later():
        d = ConfigDelta(config_src=src, config_dst=dst, **opts)
        setattr(d, k, v)
        d.nc
    for f in (lambda: ConfigDelta(**kw), later):
        if f is later and not k.startswith('preferred'):
            continue
        try:
            f()
        except error:
            continue
        except Exception as e:
            raise Violation('%s=%r: %r' % (k, v, e))
        raise Violation('%s=%r is accepted' % (k, v))


def generator(ctx):
    names = pool(ctx.seed, ctx.shard, 8 if ctx.tier == 'quick' else 60)
    prof = Profile()

    def gen(g):
        name = g.pick(names)
        sch = schema(name)
        src, dst = pair(g, sch, prof)
        opts = gen_opts(g)
        if 'diff_type' not in opts and g.chance(35):
            opts['diff_type'] = g.pick(['minimum', 'minimum-replace'])
            opts['replace_depth'] = g.int(0, 4)
            if g.chance(30):
                opts['replace_xpath'] = g.pick(['/*/*', '//*', '/*/*/*',
                                                '//*[1]', '//*[not(*)]'])
        return {'schema': name, 'opts': opts,
                'bad': g.pick(BAD) if g.chance(20) else None,
                'src': render(sch, src, gen_style(g)),
                'dst': render(sch, dst, gen_style(g))}
    return gen


def peer(sch, s, e, kids):
    """what e refers to in kids"""
    if s.kind == 'leaf-list':
        i = (s, parse_value(sch, s, e))
    elif s.kind == 'list':
        i = (s, tuple(parse_value(sch, k, e.find(k.tag))
                      for k in s.key_nodes))
    else:
        i = (s, None)
    for d in kids:
        if data.ident(d) == i:
            return d
    return None


def plain(nc):
    """without attributes operation that have no namespace"""
    nc = wire(nc)
    for e in nc.iter():
        e.attrib.pop('operation', None)
    return etree.tostring(nc, method='c14n')


def check(ctx, case):
    from ncdiff import ConfigDelta
    sch = schema(case['schema'])
    dev = device(case['schema'])
    opts = case['opts']
    src_t = normalise(parse(sch, case['src']))
    dst_t = normalise(parse(sch, case['dst']))
    src = mkconfig(dev, case['src'])
    dst = mkconfig(dev, case['dst'])
    with sut('delta'):
        nc = ConfigDelta(config_src=src, config_dst=dst, **opts).nc
    if case.get('bad'):
        refused(src, dst, opts, case['bad'])
    create = opts.get('preferred_create', 'merge')
    change = opts.get('preferred_replace', 'merge')
    delete = opts.get('preferred_delete', 'delete')
    kind = opts.get('diff_type', 'minimum')
    depth = opts.get('replace_depth', 0)
    if kind != 'replace':
        # the depth and the xpath only add marks
        rest = {k: v for k, v in opts.items() if k.startswith('preferred')}
        with sut('delta without diff_type'):
            other = ConfigDelta(config_src=src, config_dst=dst, **rest).nc
        require(plain(nc) == plain(other), 'diff_type %s with depth %s gives '
                'another difference than diff_type minimum', kind, depth)
    if kind == 'minimum-replace':
        marks(nc, opts.get('replace_xpath'), depth)
    elif kind == 'minimum':
        require(not any('operation' in e.attrib for e in nc.iter()),
                'an operation that was not asked for')
    nc = wire(nc)
    seen = []

    def walk(parent, s, old, new, level):
        for e in parent:
            cs = s.child(*split(e.tag))
            require(cs is not None, '%s is not in the schema', e.tag)
            if cs.is_key:
                require(e.get(OP) is None, 'operation %s at a key',
                        e.get(OP))
                continue
            op = e.get(OP)
            what = '%s (level %d, operation %s)' % (cs.name, level, op)
            before = peer(sch, cs, e, old)
            after = peer(sch, cs, e, new)
            ordered = cs.user and cs.kind in ('list', 'leaf-list')
            seen.append(op)
            require(ordered or not any(a.startswith('{%s}' % YANG_NS)
                                       for a in e.attrib),
                    '%s: insert attributes', what)
            np = cs.kind == 'container' and not cs.presence
            if op == delete:
                require(before is not None, '%s: not in the source', what)
                require(after is None, '%s: is in the destination', what)
                continue
            inner = [x for x in e.iterdescendants() if x.get(OP)]
            if after is None and np and delete == 'delete':
                # deleted by what it contains
                require(before is not None, '%s: not in the source', what)
                require(op is None and inner and
                        all(x.get(OP) == 'delete' for x in inner),
                        '%s: neither deleted nor in the destination', what)
                continue
            require(after is not None, '%s: not in the destination', what)
            if kind == 'replace' and (level >= depth or before is None):
                require(level <= depth, '%s: deeper than %d', what, depth)
                want = 'replace'
            elif before is None:
                want = create
                if create == 'create':
                    if np:
                        # its children are created, unless they replace
                        # defaults
                        created(sch, cs, e, after)
                        require(op is None, '%s: non-presence containers '
                                'are not created', what)
                        continue
            elif cs.kind == 'leaf':
                want = change
            elif change == 'replace' and cs.kind != 'leaf-list' and \
                    not (kind == 'replace' and level == depth - 1):
                # replaced if a leaf-list in it differs
                want = 'replace' if leaf_lists_differ(before, after) \
                    else 'merge'
            else:
                want = 'merge'
            require((op or 'merge') == want, '%s: operation should be %s',
                    what, want)
            if op:
                require(not inner, '%s: operations in it', what)
                require(equal(normalise(whole(sch, cs, e)), after.kids),
                        '%s: is not what the destination has', what)
                if before is not None and not ordered:
                    require(not equal([before], [after]),
                            '%s: is the same in the source', what)
                continue
            if cs.kind in ('leaf', 'leaf-list'):
                v = parse_value(sch, cs, e)
                require(v == after.val, '%s: value %r', what, v)
                if before is not None and not ordered:
                    require(v != before.val, '%s: is the same in the source',
                            what)
                continue
            if before is not None and not ordered:
                require(not equal([before], [after]),
                        '%s: is the same in the source', what)
            if before is None:
                require(not inner, '%s: operations in it', what)
                require(equal(normalise(whole(sch, cs, e)), after.kids),
                        '%s: is not what the destination has', what)
            else:
                walk(e, cs, before.kids, after.kids, level + 1)

    walk(nc, sch.root, src_t, dst_t, 0)
    ctx.label(kind)
    return bool(any(seen) or len(seen) > 3)


def leaf_lists_differ(before, after):
    a, b = [{x: canon([d for d in k if d.s is x])
             for x in {d.s for d in k} if x.kind == 'leaf-list'}
            for k in (before.kids, after.kids)]
    return any(a[x] != b[x] for x in a.keys() & b.keys())


def created(sch, s, e, after):
    for c in e:
        cs = s.child(*split(c.tag))
        op = c.get(OP)
        require(op in (None, 'create'), '%s: operation %s in a new node',
                cs.name, op)
        if cs.kind == 'container' and not cs.presence:
            d = peer(sch, cs, c, after.kids)
            require(d is not None and op is None, '%s in a new node',
                    cs.name)
            created(sch, cs, c, d)
        elif cs.default is None:
            require(op == 'create', '%s: operation should be create',
                    cs.name)


def whole(sch, s, e):
    """children of e as data"""
    out = []
    for c in e:
        cs = s.child(*split(c.tag))
        require(cs is not None, '%s is not in the schema', c.tag)
        if cs.kind in ('leaf', 'leaf-list'):
            out.append(D(cs, parse_value(sch, cs, c)))
        else:
            out.append(D(cs, None, whole(sch, cs, c)))
    return out


def marks(nc, xpath, depth):
    if xpath:
        marked = set(nc.xpath(xpath))
    else:
        marked = {e for e in nc.iter()
                  if len(list(e.iterancestors())) == depth + 1}
    for e in nc.iter():
        got = e.get('operation') == 'replace' or e.get(OP) == 'replace'
        if e in marked and len(e) and not e.get(OP):
            require(got, '%s is not marked', e.tag)
        if e not in marked:
            require(e.get('operation') is None, '%s is marked', e.tag)
