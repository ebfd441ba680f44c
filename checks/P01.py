"""Round trip: applying the delta of two configs to the first gives the
second."""
from .common import *

CASES = {'quick': 2500, 'thorough': 60000}
RULE = 'source and destination differ'


def generator(ctx):
    names = pool(ctx.seed, ctx.shard, 8 if ctx.tier == 'quick' else 60)
    prof = Profile()

    def gen(g):
        name = g.pick(names)
        sch = schema(name)
        src, dst = pair(g, sch, prof)
        opts = gen_opts(g)
        if g.chance(6):
            opts['diff_type'] = 'minimum-replace'
            opts['replace_depth'] = g.int(0, 4)
            if g.chance(30):
                opts['replace_xpath'] = g.pick(['/*/*', '//*', '/*/*/*'])
        bad = None
        if g.chance(3):
            bad = [g.pick(['preferred_create', 'preferred_replace',
                           'preferred_delete', 'random_depth']),
                   g.pick(['', 'nothing', 'DELETE', 'none'])]
        return {'schema': name, 'bad': bad,
                'src': render(sch, src, gen_style(g)),
                'dst': render(sch, dst, gen_style(g)),
                'opts': opts}
    return gen


def check(ctx, case):
    from ncdiff import ConfigDelta
    sch = schema(case['schema'])
    dev = device(case['schema'])
    src_t = normalise(parse(sch, case['src']))
    dst_t = normalise(parse(sch, case['dst']))
    src = mkconfig(dev, case['src'])
    dst = mkconfig(dev, case['dst'])
    if case.get('bad'):
        opts = dict(case['opts'])
        opts[case['bad'][0]] = case['bad'][1]
        try:
            ConfigDelta(config_src=src, config_dst=dst, **opts)
        except ValueError:
            pass
        except Exception as e:
            raise Violation('%s=%r raised %r' % (*case['bad'], e))
        else:
            raise Violation('%s=%r is accepted' % tuple(case['bad']))
    with sut('delta'):
        delta = ConfigDelta(config_src=src, config_dst=dst, **case['opts'])
    with sut('src + delta'):
        got = src + delta
    got_t = parse_out(sch, got.ele, 'src + delta')
    require(equal(normalise(got_t), dst_t), 'src + (dst - src) != dst')
    with sut('comparison'):
        require(got == dst, 'src + (dst - src) == dst is False')
        require(not (got != dst), 'src + (dst - src) != dst is True')
    for k, v in case['opts'].items():
        ctx.label('%s=%s' % (k, v))
    return not equal(src_t, dst_t)
