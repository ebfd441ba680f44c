"""Random order of siblings: same delta, other order, reproducible."""
from .common import *

CASES = {'quick': 1800, 'thorough': 40000}
RULE = 'the order of some siblings was changed'


def generator(ctx):
    names = pool(ctx.seed, ctx.shard, 10 if ctx.tier == 'quick' else 60,
                 'u', rich_share=0)
    prof = Profile()

    def gen(g):
        name = g.pick(names)
        sch = schema(name)
        src, dst = pair(g, sch, prof)
        return {'schema': name,
                'src': render(sch, src, gen_style(g)),
                'dst': render(sch, dst, gen_style(g)),
                'opts': gen_opts(g, replace=False),
                'depth': g.int(0, 4), 'seed': g.int(0, 5000),
                'how': g.pick(['init', 'set'])}
    return gen


def text(e):
    # prefixes may be declared elsewhere once a node has moved
    return repr((e.tag, sorted(e.attrib.items()), (e.text or '').strip()
                 if len(e) else e.text or '', [text(c) for c in e]))


def check(ctx, case):
    from ncdiff import ConfigDelta
    sch = schema(case['schema'])
    dev = device(case['schema'])
    src_t = normalise(parse(sch, case['src']))
    dst_t = normalise(parse(sch, case['dst']))
    src = mkconfig(dev, case['src'])
    dst = mkconfig(dev, case['dst'])
    opts = case['opts']

    def make(seed=case['seed']):
        if case['how'] == 'init':
            return ConfigDelta(config_src=src, config_dst=dst,
                               random_depth=case['depth'], random_seed=seed,
                               **opts)
        d = ConfigDelta(config_src=src, config_dst=dst, **opts)
        d.random_depth = case['depth']
        d.random_seed = seed
        return d
    with sut('delta'):
        plain = ConfigDelta(config_src=src, config_dst=dst, **opts).nc
        d = make()
        nc = d.nc
        require(text(nc) == text(d.nc) == text(make().nc),
                'the same seed gives two orders')
        auto = make(None)
        require(auto.random_seed is not None,
                'no seed is generated when only a depth is given')
        require(text(auto.nc) == text(auto.nc), 'the order is not stable')
    changed = [False]

    def rec(s, a, b, depth):
        ka, kb = list(a), list(b)
        if depth != case['depth']:
            require(len(ka) == len(kb), 'children added or lost')
            for x, y in zip(ka, kb):
                require(x.tag == y.tag and dict(x.attrib) == dict(y.attrib)
                        and (x.text or '') == (y.text or ''),
                        'a node changed or moved at depth %d', depth)
                rec(None if s is None else s.child(*data.split(x.tag)),
                    x, y, depth + 1)
            return
        require(sorted(map(text, ka)) == sorted(map(text, kb)),
                'children added, lost or changed')
        if [text(x) for x in ka] != [text(x) for x in kb]:
            changed[0] = True
        if s is not None and s.kind == 'list':
            keys = [k.tag for k in s.key_nodes]
            require([x.tag for x in kb[:len(keys)]] ==
                    [x.tag for x in ka[:len(keys)]],
                    'keys do not come first, in their order')
    rec(sch.root, plain, nc, 0)
    try:
        after = Server(sch).apply(src_t, wire(nc))
    except (EditError, BadData) as e:
        raise Violation('a server rejects the reordered delta: %s' % e)
    require(equal(normalise(after), dst_t),
            'the reordered delta leads somewhere else')
    with sut('src + delta'):
        require(src + d == dst, 'src + reordered delta is not dst')
    return changed[0]
