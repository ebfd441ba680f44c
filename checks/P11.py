"""A delta talks only about what differs."""
from .common import *
from vp.data import find
from vp.server import OP

CASES = {'quick': 2500, 'thorough': 50000}
RULE = 'source and destination differ and share at least one node'


def generator(ctx):
    names = pool(ctx.seed, ctx.shard, 8 if ctx.tier == 'quick' else 60)
    prof = Profile()

    def gen(g):
        name = g.pick(names)
        sch = schema(name)
        src, dst = pair(g, sch, prof)
        if g.chance(10):
            dst = src
        o = gen_opts(g, replace=False)
        o.pop('preferred_replace', None)
        return {'schema': name,
                'src': render(sch, src, gen_style(g)),
                'dst': render(sch, dst, gen_style(g)),
                'opts': o}
    return gen


def check(ctx, case):
    from ncdiff import ConfigDelta
    sch = schema(case['schema'])
    dev = device(case['schema'])
    src_t = normalise(parse(sch, case['src']))
    dst_t = normalise(parse(sch, case['dst']))
    src = mkconfig(dev, case['src'])
    dst = mkconfig(dev, case['dst'])
    with sut('delta'):
        nc = wire(ConfigDelta(config_src=src, config_dst=dst,
                              **case['opts']).nc)
    server = Server(sch)
    shared = [0]

    def rec(s, e, a, b, path):
        seen = set()
        for c in e:
            cs = s.child(*data.split(c.tag))
            require(cs is not None, 'unknown node %s', c.tag)
            if cs.is_key:
                continue
            p = path + '/' + cs.name
            try:
                me = server._parse_node(cs, c)
            except (BadData, EditError) as x:
                raise Violation('%s: %s' % (p, x))
            i = data.ident(me)
            require(i not in seen, '%s appears twice', p)
            seen.add(i)
            x, y = find(a, me), find(b, me)
            require(x is not None or y is not None,
                    '%s is in neither config', p)
            op = c.get(OP, 'merge')
            user = cs.kind in ('list', 'leaf-list') and cs.user
            if y is None and op in ('delete', 'remove'):
                continue
            require(op not in ('delete', 'remove'),
                    '%s is deleted but is part of the destination', p)
            if y is None:
                # a container whose content is deleted
                require(cs.kind == 'container' and not cs.presence,
                        '%s is not deleted', p)
                rec(cs, c, x.kids, [], p)
                continue
            if x is None:
                # new: the content has to be the destination's
                try:
                    full = server._full(cs, c)
                except (BadData, EditError) as z:
                    raise Violation('%s: %s' % (p, z))
                require(equal([full], [y]),
                        'new node %s differs from the destination', p)
                continue
            require(op != 'create', '%s is created but exists', p)
            shared[0] += 1
            if user:
                if cs.kind == 'list':
                    if equal([x], [y]):
                        require(all(cs.child(*data.split(k.tag)).is_key
                                    for k in c),
                                'unchanged entry %s is sent with content', p)
                    else:
                        rec(cs, c, x.kids, y.kids, p)
                continue
            if cs.kind == 'leaf':
                require(x.val != y.val, '%s did not change', p)
            elif cs.kind == 'leaf-list':
                raise Violation('%s did not change' % p)
            else:
                require(not equal([x], [y]), '%s did not change', p)
                rec(cs, c, x.kids, y.kids, p)

    rec(sch.root, nc, src_t, dst_t, '')
    common = {data.ident(d) for d in src_t} & {data.ident(d) for d in dst_t}
    return not equal(src_t, dst_t) and bool(common)
