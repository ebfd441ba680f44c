"""A config extracted from operational data holds the configuration in it:
everything read-only is gone, everything else is kept."""
from .common import *
from vp.data import drop, Style
from vp.device import Session, capabilities

CASES = {'quick': 2000, 'thorough': 40000}
RULE = 'the reply holds read-only nodes and configuration'


def generator(ctx):
    names = pool(ctx.seed, ctx.shard, 8 if ctx.tier == 'quick' else 60,
                 'rs', rich_share=0)
    names = [n for n in names if any(
        x.effective_config is False for x in schema(n).root.walk())] or names
    prof = Profile()

    def gen(g):
        name = g.pick(names)
        sch = schema(name)
        tree = gen_tree(g, sch, prof, g.pick([60, 75]), raw=True)
        st = gen_style(g, ('data',), pretty=True)
        if g.chance(20):
            st.comment = g.int(2, 9999)
        return {'schema': name, 'all': render(sch, tree, st),
                'remove_deprecated': g.chance(40)}
    return gen


def check(ctx, case):
    from ncdiff import Config
    sch = schema(case['schema'])
    dev = device(case['schema'])
    remove = ('obsolete', 'deprecated') if case['remove_deprecated'] else \
        ('obsolete',)
    from lxml import etree
    quiet = etree.XMLParser(remove_comments=True, remove_pis=True)
    tree = parse(sch, etree.XML(case['all'], quiet))
    ro = lambda d: d.s.effective_config is False
    want = normalise(drop(tree, ro), remove)
    sess = dev.vp_session
    from lxml import etree
    inner = ''.join(etree.tostring(e, encoding='unicode')
                    for e in etree.XML(case['all']))
    sess.data_xml = inner
    with sut('get'):
        reply = dev.get()
        require(reply.ok, 'get failed')
    with sut('extract_config'):
        cfg = dev.extract_config(
            reply, remove_deprecated=case['remove_deprecated'])
    got = parse_out(sch, cfg.ele, 'extract_config')
    require(equal(got, want), 'extract_config(get) is not the configuration '
            'in the reply')
    sess.data_xml = ''.join(
        etree.tostring(e, encoding='unicode')
        for e in etree.XML(render(sch, drop(tree, ro), Style(1))))
    with sut('get-config'):
        reply = dev.get_config()
        cfg2 = dev.extract_config(
            reply, remove_deprecated=case['remove_deprecated'])
        require(cfg == cfg2, 'config from get differs from config from '
                'get-config')
        require(not (cfg2 - cfg), 'delta of get and get-config is true')
    removed = len(tree) and not equal(want, normalise(tree, remove))
    return bool(removed and want)
