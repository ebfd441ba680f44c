"""A config depends only on what its XML means: not on prefixes, whitespace,
sibling order, wrapper, input type, explicit defaults or empty containers."""
from .common import *
from vp.gen import D
from vp.data import default_values

CASES = {'quick': 2200, 'thorough': 50000}
RULE = ('the config is not empty and the two texts of it are different')
WRAPS = ('config', 'data', 'rpc-reply', 'edit-config', 'rpc')


def gen_variant(g, sch, tree):
    """same meaning: add explicit defaults and empty containers"""
    def fill(s, kids):
        out = [D(d.s, d.val, fill(d.s, d.kids)
                 if d.s.kind in ('container', 'list') else [])
               for d in kids]
        have = {d.s for d in out}
        for c in s.children:
            if c in have or c.kind in ('choice', 'case'):
                continue
            if c.status is not None or c.config is False:
                continue
            if c.kind == 'leaf' and default_values(c) and g.chance(30):
                out.append(D(c, c.default))
            elif c.kind == 'leaf-list' and default_values(c) and \
                    g.chance(30):
                out += [D(c, v) for v in c.default]
            elif c.kind == 'container' and not c.presence and g.chance(30):
                out.append(D(c, None, fill(c, [])))
        return out
    return fill(sch.root, tree)


def generator(ctx):
    names = pool(ctx.seed, ctx.shard, 6 if ctx.tier == 'quick' else 60, 's')
    prof = Profile()

    def gen(g):
        name = g.pick(names)
        sch = schema(name)
        tree = gen_tree(g, sch, prof, raw=True)
        texts = []
        for _ in range(2):
            t = tree if g.chance(30) else gen_variant(g, sch, tree)
            st = gen_style(g, WRAPS, pretty=True)
            st.comment = g.int(2, 9999) if g.chance(30) else \
                int(g.chance(15))
            texts.append(render(sch, t, st))
        return {'schema': name, 'texts': texts,
                'how': [g.pick(['str', 'element', 'reply', 'pretty-element'])
                        for _ in range(2)],
                'remove_deprecated': g.chance(40)}
    return gen


def build(dev, text, how, remove):
    from lxml import etree
    from ncdiff import Config
    from ncclient.operations.rpc import RPCReply
    if how == 'str':
        arg = text
    elif how == 'element':
        arg = etree.XML(text, etree.XMLParser(remove_blank_text=True))
    elif how == 'pretty-element':
        arg = etree.XML(text)
    else:
        arg = RPCReply(text)
        arg.parse()
    with sut('Config(%s)' % how):
        return Config(dev, arg, remove_deprecated=remove)


def inner(text):
    """the children of the wrapper that are data"""
    from lxml import etree
    root = etree.XML(text, etree.XMLParser(remove_comments=True,
                                           remove_pis=True))
    NC = '{urn:ietf:params:xml:ns:netconf:base:1.0}'
    for path in ('%sdata' % NC, '%sedit-config/%sconfig' % (NC, NC),
                 '%sconfig' % NC):
        e = root.find(path)
        if e is not None:
            return e
    return root


def check(ctx, case):
    from ncdiff import Config
    sch = schema(case['schema'])
    dev = device(case['schema'])
    remove = ('obsolete', 'deprecated') if case['remove_deprecated'] else \
        ('obsolete',)
    cfgs = []
    want = None
    for text, how in zip(case['texts'], case['how']):
        tree = normalise(parse(sch, inner(text)), remove)
        if want is None:
            want = tree
        else:
            assert equal(want, tree)
        c = build(dev, text, how, case['remove_deprecated'])
        got = parse_out(sch, c.ele, 'the config')
        require(equal(got, want), 'config read from %s differs from what '
                'the XML says', how)
        cfgs.append(c)
        ctx.label(how)
    a, b = cfgs
    with sut('comparison'):
        require(a == b, 'two texts of one config are not equal')
        require(not bool(a - b), 'delta of two texts of one config is true')
        for c in cfgs:
            for text in (str(c), c.xml):
                again = Config(dev, text)
                require(again == c, 'config differs after being written and '
                        'read')
                require(equal(parse_out(sch, again.ele, 're-read'), want),
                        'content differs after being written and read')
        twice = Config(dev, a.ele)
        require(equal(parse_out(sch, twice.ele, 'copy'), want),
                'normalising twice gives another result')
    return bool(want) and case['texts'][0] != case['texts'][1]
