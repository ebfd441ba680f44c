"""The edit-config of a delta, executed by an independent strict NETCONF
server that holds the source config, is accepted and leaves the destination
config; only the operations asked for are used."""
from .common import *
from vp.server import OP

CASES = {'quick': 2500, 'thorough': 60000}
RULE = 'source and destination differ, so the server had something to do'


def generator(ctx):
    names = pool(ctx.seed, ctx.shard, 8 if ctx.tier == 'quick' else 60)
    prof = Profile()

    def gen(g):
        name = g.pick(names)
        sch = schema(name)
        src, dst = pair(g, sch, prof)
        return {'schema': name,
                'src': render(sch, src, gen_style(g)),
                'dst': render(sch, dst, gen_style(g)),
                'opts': gen_opts(g)}
    return gen


def check(ctx, case):
    from ncdiff import ConfigDelta
    sch = schema(case['schema'])
    dev = device(case['schema'])
    opts = case['opts']
    src_t = normalise(parse(sch, case['src']))
    dst_t = normalise(parse(sch, case['dst']))
    src = mkconfig(dev, case['src'])
    dst = mkconfig(dev, case['dst'])
    with sut('delta'):
        delta = ConfigDelta(config_src=src, config_dst=dst, **opts)
        nc = delta.nc
    nc = wire(nc)
    server = Server(sch)
    try:
        after = server.apply(src_t, nc)
        data.check_single_case(after)
    except (EditError, BadData) as e:
        raise Violation('a server holding the source rejects the delta: %s'
                        % e)
    require(equal(normalise(after), dst_t),
            'the delta does not bring a server from source to destination')
    allowed = {'merge',
               opts.get('preferred_create', 'merge'),
               opts.get('preferred_replace', 'merge'),
               opts.get('preferred_delete', 'delete')}
    if opts.get('diff_type') == 'replace':
        allowed.add('replace')
    used = {e.get(OP) for e in nc.iter() if e.get(OP)}
    require(used <= allowed, 'the delta uses %s, asked for were %s',
            sorted(used), sorted(allowed))
    for k in server.stats:
        ctx.label(k)
    return not equal(src_t, dst_t)
