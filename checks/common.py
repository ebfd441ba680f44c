"""Shared by the checks on configurations and deltas."""
from vp import data
from vp.data import D, parse, render, normalise, equal, canon, Style, BadData
from vp.gen import (Profile, gen_tree, mutate_tree, gen_style, shuffler)
from vp.runner import (schema, device, pool, sut, require, Violation,
                       HarnessError)
from vp.server import Server, EditError


def parse_out(sch, ele, what):
    """read an XML tree the code under test produced"""
    try:
        # as text: what is in memory may differ from what it is written as
        t = parse(sch, wire(ele))
        data.check_single_case(t)
        return t
    except BadData as e:
        raise Violation('%s is not valid configuration data: %s' % (what, e))


def mkconfig(dev, xml, **kw):
    from ncdiff import Config
    with sut('Config(%d bytes)' % len(xml)):
        return Config(dev, xml, **kw)


def pair(g, sch, prof):
    """two trees: usually close to each other"""
    src = gen_tree(g, sch, prof)
    k = g.int(0, 9)
    if k == 9:
        dst = []
    elif k >= 7:
        dst = gen_tree(g, sch, prof)
    else:
        dst = mutate_tree(g, sch, src, prof)
    if g.chance(15):
        src, dst = dst, src
    return src, dst


DELTA_OPTS = [
    dict(),
    dict(preferred_create='create'),
    dict(preferred_create='replace'),
    dict(preferred_delete='remove'),
    dict(preferred_replace='replace'),
    dict(diff_type='replace', replace_depth=0),
    dict(diff_type='replace', replace_depth=1),
    dict(diff_type='replace', replace_depth=2),
]


def gen_opts(g, replace=True):
    o = dict(g.pick(DELTA_OPTS if replace else DELTA_OPTS[:5]))
    if g.chance(50):
        o.setdefault('preferred_delete', g.pick(['delete', 'remove']))
        o.setdefault('preferred_create', g.pick(['merge', 'create',
                                                 'replace']))
        o.setdefault('preferred_replace', g.pick(['merge', 'replace']))
        if replace and g.chance(30):
            o['diff_type'] = 'replace'
            o['replace_depth'] = g.int(0, 4)
    return o


def wire(ele):
    """what a server reads: the element serialised and parsed again"""
    from lxml import etree
    return etree.XML(etree.tostring(ele))


def small(d):
    """schema name, XML texts: what identifies a case in a message"""
    return d
