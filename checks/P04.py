"""Comparison operators are the containment order of config content."""
import operator

from .common import *
from vp.data import le, drop

CASES = {'quick': 3000, 'thorough': 60000}
OPS = {'==': operator.eq, '!=': operator.ne, '<=': operator.le,
       '>=': operator.ge, '<': operator.lt, '>': operator.gt}
RULE = 'the two configs are not written the same way and not both empty'


def generator(ctx):
    names = pool(ctx.seed, ctx.shard, 8 if ctx.tier == 'quick' else 60)
    prof = Profile()

    def gen(g):
        name = g.pick(names)
        sch = schema(name)
        a = gen_tree(g, sch, prof)
        k = g.int(0, 5)
        if k == 0:
            b = a
        elif k in (1, 2):
            # part of a
            b = normalise(drop(a, lambda d: not d.s.is_key and g.chance(15)))
        elif k == 3:
            b = mutate_tree(g, sch, a, prof, 8)
        else:
            b = mutate_tree(g, sch, a, prof)
        if g.chance(50):
            a, b = b, a
        return {'schema': name,
                'a': render(sch, a, gen_style(g, pretty=True)),
                'b': render(sch, b, gen_style(g, pretty=True)),
                'other': g.int(0, 4)}
    return gen


def check(ctx, case):
    sch = schema(case['schema'])
    dev = device(case['schema'])
    at = normalise(parse(sch, case['a']))
    bt = normalise(parse(sch, case['b']))
    a = mkconfig(dev, case['a'])
    b = mkconfig(dev, case['b'])
    ab, ba = le(at, bt), le(bt, at)
    eq = equal(at, bt)
    assert eq == (ab and ba)
    with sut('comparison'):
        got = {'==': a == b, '!=': a != b, '<=': a <= b, '>=': a >= b,
               '<': a < b, '>': a > b}
    want = {'==': eq, '!=': not eq, '<=': ab, '>=': ba,
            '<': ab and not ba, '>': ba and not ab}
    for k in want:
        require(got[k] == want[k], 'a %s b is %s, expected %s', k, got[k],
                want[k])
    with sut('bool'):
        require(bool(a) == bool(at), 'bool(a) is %s', bool(a))
        require(bool(a - b) == (not eq), 'bool(a - b) is %s', bool(a - b))
    other = [b - a, None, case['b'], 0, b.ele][case.get('other', 0)]
    for x in (a, b - a):
        for k, f in OPS.items():
            try:
                f(x, other)
            except TypeError:
                continue
            except Exception as e:
                raise Violation('%s %s %s raised %r' % (
                    type(x).__name__, k, type(other).__name__, e))
            raise Violation('%s %s %s is decided' % (
                type(x).__name__, k, type(other).__name__))
    ctx.label('equal' if eq else 'below' if ab or ba else 'incomparable')
    return case['a'] != case['b'] and bool(at or bt)
