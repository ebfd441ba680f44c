"""Only XML that fits the models is accepted as a config."""
import copy

from .common import *
from vp.schema import NC_NS, YANG_NS

CASES = {'quick': 3000, 'thorough': 60000}
RULE = 'one defect was put into an otherwise valid config of at least one node'

KINDS = ['unknown-child', 'foreign-child', 'unknown-root',
         'unknown-ns-root', 'missing-key', 'operation', 'insert', 'value',
         'key', 'no-namespace', 'duplicate', 'duplicate', 'type']


def generator(ctx):
    names = pool(ctx.seed, ctx.shard, 6 if ctx.tier == 'quick' else 60)
    prof = Profile()

    def gen(g):
        name = g.pick(names)
        sch = schema(name)
        tree = gen_tree(g, sch, prof, g.pick([60, 75]))
        return {'schema': name,
                'xml': render(sch, tree, gen_style(g)),
                'kind': g.pick(KINDS),
                'where': g.int(0, 999)}
    return gen


def break_it(sch, root, kind, where):
    """put one defect into the tree; False when this tree has no place for
    it"""
    from lxml import etree
    elems = [e for e in root.iter() if e is not root]
    parents = []
    lists = []
    for e in elems:
        s = node_of(sch, root, e)
        if s.kind in ('container', 'list'):
            parents.append((e, s))
        if s.kind == 'list':
            lists.append((e, s))
    if kind == 'unknown-child' and parents:
        e, s = parents[where % len(parents)]
        etree.SubElement(e, '{%s}no-such-node' % s.mod.ns).text = 'v'
        return True
    if kind == 'foreign-child' and parents:
        # a name that exists elsewhere in the schema but not here
        e, s = parents[where % len(parents)]
        others = [n for n in sch.root.walk() if n.kind == 'leaf' and
                  s.child(n.mod.ns, n.name) is None]
        if not others:
            return False
        n = others[where % len(others)]
        etree.SubElement(e, n.tag).text = 'v'
        return True
    if kind == 'no-namespace' and parents:
        e, s = parents[where % len(parents)]
        leaves = [n for n in s.data_children if n.kind == 'leaf' and
                  not n.is_key]
        if not leaves:
            return False
        etree.SubElement(e, leaves[where % len(leaves)].name).text = '1'
        return True
    if kind == 'unknown-root':
        m = sch.modules[where % len(sch.modules)]
        etree.SubElement(root, '{%s}no-such-root' % m.ns)
        return True
    if kind == 'unknown-ns-root':
        etree.SubElement(root, '{urn:vp:nowhere}top').text = 'v'
        return True
    if kind == 'missing-key' and lists:
        e, s = lists[where % len(lists)]
        k = s.key_nodes[where % len(s.key_nodes)]
        kid = e.find(k.tag)
        e.remove(kid)
        # an entry without any content is not an entry at all
        return len(e) > 0
    if kind == 'duplicate' and elems:
        # one instance twice; defaults and empty containers mean nothing
        e = elems[where % len(elems)]
        s = node_of(sch, root, e)

        def lasting(s, e):
            if s.kind == 'list' or s.is_key or s.presence:
                return True
            if s.kind == 'container':
                return any(lasting(node_of(sch, root, c), c) for c in e
                           if isinstance(c.tag, str))
            return s.default is None
        if not lasting(s, e):
            return False
        x = copy.deepcopy(e)
        x.tail = None
        if s.kind in ('container', 'list') and where % 2 and \
           (s.kind == 'list' or s.presence):
            keys = [k.tag for k in s.key_nodes] if s.kind == 'list' else []
            for k in list(x):
                if k.tag not in keys:
                    x.remove(k)
        p = e.getparent()
        p.insert(where // 2 % (len(p) + 1), x)
        return True
    if kind in ('operation', 'insert', 'value', 'key') and elems:
        e = elems[where % len(elems)]
        if kind == 'operation':
            e.set('{%s}operation' % NC_NS, 'merge')
        else:
            e.set('{%s}%s' % (YANG_NS, kind), 'first')
        return True
    return False


def node_of(sch, root, e):
    path = []
    while e is not root:
        path.append(e)
        e = e.getparent()
    s = sch.root
    for e in reversed(path):
        s = s.child(*data.split(e.tag))
    return s


def check(ctx, case):
    from lxml import etree
    from ncdiff import Config
    from ncdiff.errors import ConfigError, ModelMissing, ModelError
    sch = schema(case['schema'])
    dev = device(case['schema'])
    c = mkconfig(dev, case['xml'])
    with sut('validate_config of a valid config'):
        c.validate_config()
    root = etree.XML(case['xml'])
    kind = case['kind']
    if kind == 'type':
        ctx.label(kind)
        return types(dev, c, case['xml'])
    if not break_it(sch, root, kind, case['where']):
        return False
    text = etree.tostring(root, encoding='unicode')
    ctx.label(kind)
    if kind == 'duplicate':
        with sut('use of a valid config'):
            require((c == c) is True and (c <= c) is True and
                    (c != c) is False, 'a valid config differs from itself')
            Config(dev) + c
            c + c
        return duplicate(dev, root, text)
    try:
        Config(dev, root)
    except (ConfigError, ModelMissing, ModelError, ValueError):
        return True
    except Exception as e:
        raise Violation('invalid config (%s): %s: %s' % (
            kind, type(e).__name__, e))
    raise Violation('invalid config (%s) is accepted: %s' % (kind,
                                                             text[:1500]))


def types(dev, c, text):
    """what is no XML and no config"""
    from ncdiff import Config
    with sut('delta'):
        d = c - Config(dev)
    for what, f in [('Config(%r)' % (x,), lambda x=x: Config(dev, x))
                    for x in (3, ['a'], True, {}, text.encode(), d)] + [
            ('config + %r' % (x,), lambda x=x: c + x)
            for x in (3, text, ['a'], True, {})] + [
            ('config - %r' % (x,), lambda x=x: c - x)
            for x in (3, text, ['a'], c.ele, {})] + [
            ('delta - %r' % (x,), lambda x=x: d - x) for x in (3, c, d)]:
        try:
            f()
        except TypeError:
            continue
        except Exception as e:
            raise Violation('%s: %r' % (what, e))
        raise Violation('%s is accepted' % what)
    return len(c.ele) > 0


def duplicate(dev, root, text):
    """at the latest when it is used"""
    from ncdiff import Config
    from ncdiff.errors import ConfigError
    try:
        c = Config(dev, root)
    except ConfigError:
        return True
    for what, f in (('==', lambda: c == c), ('<=', lambda: c <= c),
                    ('!=', lambda: c != c), ('+', lambda: Config(dev) + c),
                    ('c + c', lambda: c + c)):
        try:
            f()
        except ConfigError:
            continue
        except Exception as e:
            raise Violation('config with one instance twice: %s: %r' % (
                what, e))
        raise Violation('config with one instance twice: %s is calculated: '
                        '%s' % (what, text[:1500]))
    return True
