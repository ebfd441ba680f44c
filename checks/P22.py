"""Names in other notations: convert_tag, convert_ns."""
from .common import *

CASES = {'quick': 4000, 'thorough': 80000}
RULE = 'the name is known and the two notations differ'

NOTATIONS = ['YTOOL', 'XPATH', 'LXML_XPATH', 'LXML_ETREE', 'JSON_NAME',
             'JSON_PREFIX']
SPECIAL = [('nc', 'urn:ietf:params:xml:ns:netconf:base:1.0'),
           ('yang', 'urn:ietf:params:xml:ns:yang:1'),
           ('ncEvent', 'urn:ietf:params:xml:ns:netconf:notification:1.0')]


def generator(ctx):
    names = pool(ctx.seed, ctx.shard, 6 if ctx.tier == 'quick' else 40)

    def gen(g):
        return {'schema': g.pick(names), 'src': g.pick(NOTATIONS),
                'dst': g.pick(NOTATIONS), 'mod': g.int(0, 7),
                'default': g.int(-1, 7), 'explicit': g.chance(60),
                'name': g.pick(['a', 'x-y', 'p.q', '_z', 'Name9']),
                'special': g.chance(15), 'unknown': g.chance(8)}
    return gen


def part(mod, notation):
    """(name, prefix, url)[...]; None: it has none"""
    return mod[{'JSON_NAME': 0, 'LXML_ETREE': 2}.get(notation, 1)]


def write(mod, name, notation):
    if notation == 'LXML_ETREE':
        return '{%s}%s' % (part(mod, notation), name)
    return '%s:%s' % (part(mod, notation), name)


def check(ctx, case):
    from ncdiff import Tag
    sch = schema(case['schema'])
    dev = device(case['schema'])
    src, dst = case['src'], case['dst']
    tag = {n: getattr(Tag, n) for n in NOTATIONS}
    mods = [(m.name, m.prefix, m.ns) for m in sch.modules]
    mod = mods[case['mod'] % len(mods)]
    if case['special']:
        mod = (None,) + SPECIAL[case['mod'] % len(SPECIAL)]
    default = None
    if case['default'] >= 0:
        default = mods[case['default'] % len(mods)]
    d = part(default, src) if default else ''
    # -- convert_ns
    for i in range(3):
        for j in range(3):
            for m in mods:
                with sut('convert_ns'):
                    x = dev.convert_ns(m[i], src=i, dst=j)
                require(x == m[j], 'convert_ns(%r, %d, %d) is %r', m[i], i, j,
                        x)
            try:
                x = dev.convert_ns('nothing', src=i, dst=j)
            except ValueError:
                pass
            except Exception as e:
                raise Violation('convert_ns of an unknown name: %r' % e)
            else:
                raise Violation('convert_ns of an unknown name: %r' % x)
    # -- the notations of a model
    name = case['name']
    for m in sch.modules:
        model = dev.models.get(m.name)
        if model is None:
            continue
        for n, p, u in mods:
            if p not in model.prefixes:
                continue
            with sut('notations of a model'):
                a = model.prefix_to_url(p + ':' + name)
                b = model.url_to_prefix('{%s}%s' % (u, name))
                c = model.remove_model_prefix(p + ':' + name)
                plain = (model.prefix_to_url(name), model.url_to_prefix(name),
                         model.remove_model_prefix(name))
            require((a, b, c) == ('{%s}%s' % (u, name), p + ':' + name,
                                  name if n == m.name else p + ':' + name),
                    'model %s: %s:%s is %r', m.name, p, name, (a, b, c))
            require(plain == ('{%s}%s' % (m.ns, name), name, name),
                    'model %s: %s is %r', m.name, name, plain)
    # -- convert_tag
    error = False
    if case['unknown']:
        t = write(('no-such', 'no-such', 'urn:no-such'), name, src)
        error = True
    elif case['explicit'] or src in ('LXML_XPATH', 'LXML_ETREE'):
        if part(mod, src) is None:
            return False
        t = write(mod, name, src)
        if not case['explicit']:
            t = name        # a prefix is required
            error = True
    else:
        t = name
        mod = default
    if not error and mod is None:
        # no namespace at all: stays so where that can be written
        error = dst in ('LXML_XPATH', 'LXML_ETREE')
    omit = not error and dst not in ('LXML_XPATH', 'LXML_ETREE') and \
        mod == default
    if not error and not omit and part(mod, dst) is None:
        error = True        # special prefixes have no module name
    what = 'convert_tag(%r, %r, %s, %s)' % (d, t, src, dst)
    try:
        got = dev.convert_tag(d, t, src=tag[src], dst=tag[dst])
    except ValueError as e:
        require(error, '%s raised %s', what, e)
        ctx.label('rejected')
        return False
    except Exception as e:
        raise Violation('%s raised %r' % (what, e))
    require(not error, '%s is %r, should be an error', what, got)
    want = name if omit else write(mod, name, dst)
    require(got == (part(mod, src) if mod else '', want),
            '%s is %r, should be %r', what, got, want)
    # -- and back
    if mod and part(mod, dst) is not None:
        back_default = part(default, dst) if default else ''
        with sut('conversion back of %r' % want):
            _, x = dev.convert_tag(back_default, want, src=tag[dst],
                                   dst=tag[src])
        short = default == mod and src not in ('LXML_XPATH', 'LXML_ETREE')
        require(x == (name if short else write(mod, name, src)),
                '%s, converted back, is %r', what, x)
    ctx.label('converted')
    return src != dst
