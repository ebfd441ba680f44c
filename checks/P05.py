"""Delta algebra: a delta can be undone, re-read from XML, chained, and its
neutral elements are neutral."""
from .common import *

CASES = {'quick': 500, 'thorough': 30000}
RULE = 'at least two of the three configs differ from each other'


def generator(ctx):
    names = pool(ctx.seed, ctx.shard, 8 if ctx.tier == 'quick' else 60)
    prof = Profile()

    def gen(g):
        name = g.pick(names)
        sch = schema(name)
        a, b = pair(g, sch, prof)
        c = mutate_tree(g, sch, g.pick([a, b]), prof)
        return {'schema': name,
                'a': render(sch, a, gen_style(g)),
                'b': render(sch, b, gen_style(g)),
                'c': render(sch, c, gen_style(g)),
                'opts': gen_opts(g)}
    return gen


def check(ctx, case):
    from ncdiff import Config, ConfigDelta
    sch = schema(case['schema'])
    dev = device(case['schema'])
    t = {k: normalise(parse(sch, case[k])) for k in 'abc'}
    a, b, c = [mkconfig(dev, case[k]) for k in 'abc']

    def same(law, cfg, want):
        got = normalise(parse_out(sch, cfg.ele, law))
        require(equal(got, t[want] if isinstance(want, str) else want),
                'law broken: %s', law)

    with sut('algebra'):
        d = b - a
        same('a + (b - a) = b', a + d, 'b')
        same('(b - a) + a = b', d + a, 'b')
        same('b - (b - a) = a', b - d, 'a')
        same('b + -(b - a) = a', b + (-d), 'a')
        same('a + -(-(b - a)) = b', a + (-(-d)), 'b')
        same('a + +(b - a) = b', a + (+d), 'b')
        d1 = ConfigDelta(config_src=a, config_dst=b, **case['opts'])
        same('b + -delta(opts) = a', b + (-d1), 'a')
        again = ConfigDelta(config_src=a, delta=str(d1))
        same('destination of a delta read back from XML', again.config_dst,
             'b')
        same('a + delta read back from XML', a + again, 'b')
        same('(a + (b - a)) + (c - b) = c', (a + d) + (c - b), 'c')
        empty = Config(dev)
        same('a + (a - a) = a', a + (a - a), 'a')
        same('a + empty = a', a + empty, 'a')
        same('empty + a = a', empty + a, 'a')
        same('a + a = a', a + a, 'a')
        same('a - (a - empty) = empty', a - (a - empty), [])
        same('empty + (a - empty) = a', empty + (a - empty), 'a')
        same('delta without destination', ConfigDelta(a).config_dst, 'a')
    with sut('truth'):
        require(not bool(a - a), 'a - a is true')
        require(bool(d) == (not equal(t['a'], t['b'])), 'bool(b - a)')
    return not (equal(t['a'], t['b']) and equal(t['b'], t['c']))
