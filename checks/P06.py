"""Histories: no operation changes its operands, whatever came before."""
from lxml import etree

from .common import *

CASES = {'quick': 1000, 'thorough': 10000}
RULE = 'the history has at least three operations that returned a result'


def generator(ctx):
    names = pool(ctx.seed, ctx.shard, 8 if ctx.tier == 'quick' else 60,
                 's' if ctx.shard % 2 else '')
    prof = Profile()

    def gen(g):
        name = g.pick(names)
        sch = schema(name)
        trees = [gen_tree(g, sch, prof)]
        for _ in range(g.int(1, 2)):
            trees.append(mutate_tree(g, sch, g.pick(trees), prof))
        ops = []
        for _ in range(g.int(3, 12)):
            op = g.pick(['delta', 'add_delta', 'merge', 'sub_delta', 'neg',
                         'compare', 'text', 'filter', 'readback',
                         'xpath', 'schema', 'copy', 'element'])
            opts = gen_opts(g) if op == 'delta' else None
            if opts is not None and g.chance(25):
                opts['random_depth'] = g.int(0, 3)
                opts['random_seed'] = g.int(0, 99)
            ops.append([op, g.int(0, 5), g.int(0, 5), opts])
        return {'schema': name,
                'configs': [render(sch, t, gen_style(g)) for t in trees],
                'ops': ops}
    return gen


def check(ctx, case):
    from ncdiff import Config, ConfigDelta
    from ncdiff.errors import ConfigError, ConfigDeltaError
    sch = schema(case['schema'])
    dev = device(case['schema'])
    configs = []         # (Config, reference tree, text)
    elements = []        # (Element, text), given by the user
    deltas = []          # (ConfigDelta, src tree, dst tree, nc text)

    def put(c, t):
        configs.append((c, t, etree.tostring(c.ele)))

    for x in case['configs']:
        put(mkconfig(dev, x), normalise(parse(sch, x), ('obsolete',)))

    def verify(after):
        for i, (e, text) in enumerate(elements):
            require(etree.tostring(e) == text,
                    'element %d changed after %s', i, after)
        for i, (c, t, text) in enumerate(configs):
            require(etree.tostring(c.ele) == text,
                    'the XML of config %d changed after %s', i, after)
            require(equal(normalise(parse_out(sch, c.ele, 'config %d' % i)),
                          t), 'config %d changed after %s', i, after)
        for i, (d, s, t, text) in enumerate(deltas):
            with sut('reading delta %d' % i):
                s2 = parse_out(sch, d.config_src.ele, 'delta source')
                t2 = parse_out(sch, d.config_dst.ele, 'delta destination')
            require(equal(normalise(s2), s) and equal(normalise(t2), t),
                    'source or destination of delta %d changed after %s',
                    i, after)
            require(str(d) == text, 'the XML of delta %d changed after %s',
                    i, after)

    results = 0
    for op, i, j, opts in case['ops']:
        c, ct, _ = configs[i % len(configs)]
        c2, c2t, _ = configs[j % len(configs)]
        dl = deltas[j % len(deltas)] if deltas else None
        what = '%s %d %d' % (op, i, j)
        ctx.label(op)
        if op == 'delta':
            with sut(what):
                d = ConfigDelta(config_src=c, config_dst=c2, **opts)
                deltas.append((d, ct, c2t, str(d)))
            results += 1
        elif op in ('add_delta', 'sub_delta', 'readback') and dl:
            d, s, t, text = dl
            if op == 'sub_delta':
                with sut('-delta'):
                    d = -d
            with sut('nc'):
                nc = wire(d.nc)
            try:
                want = normalise(Server(sch).apply(ct, nc))
            except EditError:
                want = None
            try:
                if op == 'readback':
                    got = ConfigDelta(config_src=c, delta=text).config_dst
                elif op == 'add_delta':
                    got = c + d
                else:
                    got = c - dl[0]
            except (ConfigError, ConfigDeltaError) as e:
                require(want is None, '%s raised %s', what, e)
                verify(what)
                continue
            except Exception as e:
                raise Violation('%s raised %s: %s' % (
                    what, type(e).__name__, e))
            require(want is not None, '%s: should have been rejected', what)
            put(got, want)
            results += 1
        elif op == 'element' and dl:
            e = etree.XML(dl[3])
            elements.append((e, etree.tostring(e)))
            try:
                want = normalise(Server(sch).apply(ct, wire(e)))
            except EditError:
                want = None
            try:
                got = c + e
            except (ConfigError, ConfigDeltaError) as x:
                require(want is None, '%s raised %s', what, x)
                verify(what)
                continue
            except Exception as x:
                raise Violation('%s raised %s: %s' % (
                    what, type(x).__name__, x))
            require(want is not None, '%s: should have been rejected', what)
            put(got, want)
            results += 1
        elif op == 'copy':
            drop = j % 2 == 1
            form = [c, c.ele, str(c)][j % 3]
            if form is c.ele:
                elements.append((c.ele, etree.tostring(c.ele)))
            with sut(what):
                got = Config(dev, form, remove_deprecated=drop)
            put(got, normalise(ct, ('obsolete', 'deprecated')) if drop
                else ct)
            results += 1
        elif op == 'merge':
            with sut(what):
                got = c + c2
            want = normalise(Server(sch).apply(ct, wire(c2.ele)))
            put(got, want)
            results += 1
        elif op == 'neg' and dl:
            d, s, t, text = dl
            with sut(what):
                n = -d
                deltas.append((n, t, s, str(n)))
            results += 1
        elif op == 'compare':
            with sut(what):
                r = c == c2
                c <= c2, c < c2, c >= c2, c > c2, c != c2, bool(c)
            require(r == equal(ct, c2t), '%s: == is %s', what, r)
            results += 1
        elif op == 'text':
            with sut(what):
                str(c), c.xml, repr(c), c.models, c.roots, c.ns
                if dl:
                    str(dl[0]), dl[0].models, dl[0].roots, dl[0].ns, \
                        bool(dl[0])
        elif op == 'filter':
            with sut(what):
                n = len(c.ele)
                f = c.filter('/nc:config/*[%d]' % (j % 3 + 1),
                             namespaces={'nc': 'urn:ietf:params:xml:ns:'
                                               'netconf:base:1.0'})
            k = j % 3
            want = parse_out(sch, c.ele, 'config')
            want = want[k:k + 1] if n else []
            if equal(normalise(want), want):
                # not just the default values of a leaf-list
                put(f, want)
            results += 1
        elif op == 'xpath':
            with sut(what):
                c.xpath('//*')
        elif op == 'schema':
            with sut(what):
                for e in c.ele.iter():
                    if e is not c.ele:
                        dev.get_schema_node(e)
                        dev.get_xpath(e)
                        dev.get_model_name(e)
        verify(what)
    return results >= 3
