"""Configs of two devices: one result when the models agree, none otherwise."""
import random

from .common import *
from vp import modelgen
from vp.device import make_device, capabilities
from vp.gen import random_schema
from vp.schema import SNode as N
from vp.yangtext import spell
from . import P16

CASES = {'quick': 700, 'thorough': 10000}
RULE = 'the two configs differ, or the models do'

_cache = {}


def variant(seed, edits, unloaded):
    """(schema, device, speller); nothing is shared between variants"""
    key = (seed, tuple(map(tuple, edits)), tuple(unloaded))
    if key not in _cache:
        sch = random_schema(seed, status=False, readonly=False)
        sch.name = 'two'
        if not hasattr(sch, 'extra') or sch.extra is None:
            sch.extra = N('root', '')
        for kind, s in edits:
            if kind == 'node':
                P16.edit(sch, s)
            else:
                m = sch.modules[s % len(sch.modules)]
                if kind == 'prefix':
                    m.prefix += 'z'
                elif kind == 'ns':
                    m.ns += '/v2'
        for n in sch.root.walk():
            n._data = n._byid = None
        sch.root._data = sch.root._byid = None
        sch.by_ns = {m.ns: m for m in sch.modules}
        yang, sp = spell(sch, random.Random(1), 0)
        names = [m.name for m in sch.modules]
        load = [m for i, m in enumerate(names) if i not in unloaded]
        with sut('loading models'):
            dev = make_device(schema=sch, yang=yang, load=load,
                              caps=capabilities(names))
        _cache[key] = sch, dev, sp
    return _cache[key]


def generator(ctx):
    prof = Profile()
    seeds = [(ctx.seed * 1000 + ctx.shard) * 100 + i
             for i in range(8 if ctx.tier == 'quick' else 30)]

    def gen(g):
        seed = g.pick(seeds)
        r = random.Random(seed)
        pool_ = [[], [], [['node', r.randint(0, 10 ** 6)]],
                 [['node', r.randint(0, 10 ** 6)]],
                 [['node', r.randint(0, 10 ** 6)]],
                 [['prefix', r.randint(0, 9)]], [['ns', r.randint(0, 9)]]]
        edits = g.pick(pool_)
        missing = g.pick([[], [], [], [r.randint(0, 2)]])
        a, _, _ = variant(seed, [], [])
        b, _, _ = variant(seed, edits, missing)
        src = gen_tree(g, a, prof)
        if not edits and g.chance(70):
            dst = [x for x in mutate_tree(g, a, src, prof)]
            xml = render(a, dst, gen_style(g))
        else:
            xml = render(b, gen_tree(g, b, prof), gen_style(g))
        return {'seed': seed, 'edits': edits, 'missing': missing,
                'src': render(a, src, gen_style(g)), 'dst': xml}
    return gen


def used(sch, xml):
    """names of the models of the roots that a normalised config has"""
    out = set()
    for d in normalise(parse(sch, xml), ('obsolete',)):
        s = d.s
        while s.parent.kind != 'root':
            s = s.parent
        out.add(s.mod.name)
    return out


def check(ctx, case):
    from ncdiff import Config, ConfigDelta
    from ncdiff.errors import ModelMissing, ModelIncompatible
    a, d1, spa = variant(case['seed'], [], [])
    b, d2, spb = variant(case['seed'], case['edits'], case['missing'])
    c1 = mkconfig(d1, case['src'])
    names = [m.name for m in b.modules]
    gone = {names[i] for i in case['missing'] if i < len(names)}
    if used(b, case['dst']) & gone or \
       {s.mod.name for s in [P16roots(x) for x in parse(b, case['dst'])]} & \
       gone:
        try:
            Config(d2, case['dst'])
        except ModelMissing:
            ctx.label('config of a missing model')
            return True
        except Exception as e:
            raise Violation('config of a model that is not loaded: %r' % e)
        raise Violation('config of a model that is not loaded was accepted')
    c2 = mkconfig(d2, case['dst'])
    with sut('models'):
        models = set(c1.models) | set(c2.models)
    require(models == used(a, case['src']) | used(b, case['dst']),
            'models are %r', models)
    verdict = None
    for m in sorted(models):
        ma, mb = a.by_name[m], b.by_name[m]
        if (ma.prefix, ma.ns) != (mb.prefix, mb.ns):
            verdict = 'different'
        elif m in gone:
            verdict = verdict or 'missing'
        else:
            if P16.marks(ma, P16.roots(a, ma), P16.roots(b, mb), spa, spb,
                         d1.models[m].tree, d2.models[m].tree):
                verdict = 'different'
    # names of other modules show in the trees of the models that use them
    if verdict is None:
        for m in models:
            ta = {e.tag for e in d1.models[m].tree.iter()}
            tb = {e.tag for e in d2.models[m].tree.iter()}
            if ta != tb:
                verdict = 'different'
    # which modules know derived identities is decided by P14
    ctx.label(str(verdict))
    ops = [('-', lambda: c2 - c1), ('reverse -', lambda: c1 - c2),
           ('ConfigDelta', lambda: ConfigDelta(c1, c2)),
           ('+', lambda: c1 + c2), ('reverse +', lambda: c2 + c1)]
    if verdict is not None:
        for what, f in ops:
            try:
                f()
            except (ModelMissing, ModelIncompatible):
                continue
            except Exception as e:
                raise Violation('%s of configs whose models are %s: %r' %
                                (what, verdict, e))
            raise Violation('%s of configs whose models are %s was '
                            'calculated' % (what, verdict))
        # nor is a difference applied
        with sut('delta on one device'):
            x = Config(d1) - c1
            y = Config(d2) - c2
        for cfg, delta in ((c2, x), (c1, y)):
            for what, f in (('config + delta', lambda: cfg + delta),
                            ('delta + config', lambda: delta + cfg),
                            ('config - delta', lambda: cfg - delta)):
                try:
                    f()
                except (ModelMissing, ModelIncompatible):
                    continue
                except Exception as e:
                    raise Violation('%s of a device whose models are %s: %r'
                                    % (what, verdict, e))
                raise Violation('%s of a device whose models are %s was '
                                'calculated' % (what, verdict))
        return True
    if case['edits']:
        if case['edits'][0][0] == 'node':
            # the versions differ in models that are not involved
            for what, f in ops[:3]:
                with sut(what + ' of configs whose models are the same'):
                    f()
            ctx.label('other model differs')
        return False
    src = normalise(parse(a, case['src']))
    dst = normalise(parse(a, case['dst']))
    sv = Server(a)
    with sut('operations on configs of two devices'):
        delta = c2 - c1
        nc = wire(delta.nc)
        back = wire((-delta).nc)
        got = c1 + delta
        got2 = c2 + (-delta)
        eq, le, ge = c1 == c2, c1 <= c2, c1 >= c2
        truth = bool(delta)
        c3 = mkconfig(d1, case['dst'])
        eq3 = c3 == c2 and c2 == c3
    try:
        require(equal(normalise(sv.apply(src, nc)), dst),
                'delta leads elsewhere')
        require(equal(normalise(sv.apply(dst, back)), src),
                'reverse delta leads elsewhere')
    except EditError as e:
        raise Violation('a server rejects the delta: %s' % e)
    require(equal(parse_out(a, got.ele, 'config + delta'), dst),
            'config + delta is not the other config')
    require(equal(parse_out(a, got2.ele, 'config - delta'), src),
            'config - delta is not the first config')
    require(eq == equal(src, dst) and truth == (not eq), 'comparison')
    require(le == data.le(src, dst) and ge == data.le(dst, src),
            'comparison by content')
    require(eq3, 'configs with the same content on two devices differ')
    return not eq


def P16roots(d):
    s = d.s
    while s.parent.kind != 'root':
        s = s.parent
    return s
