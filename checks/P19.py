"""What is sent to the device and what comes back."""
import random

from lxml import etree

from .common import *
from vp import modelgen
from vp.device import BASE_CAPS, capabilities, make_device
from vp.schema import NC_NS
from .P14 import build

CASES = {'quick': 2500, 'thorough': 20000}
RULE = ('a difference was sent and the device changed; or a message with '
        'namespaces, or a filter with several roots was sent')

CANDIDATE = 'urn:ietf:params:netconf:capability:candidate:1.0'
WRITABLE = 'urn:ietf:params:netconf:capability:writable-running:1.0'
URIS = ['urn:a', 'urn:b', 'urn:c', NC_NS]
OPTIONS = [('default_operation', ['merge', 'replace', 'none']),
           ('test_option', ['test-then-set', 'set']),
           ('error_option', ['stop-on-error', 'continue-on-error',
                             'rollback-on-error'])]
PREFS = [None, 'a', 'b', 'nc', 'ns0', 'x']


def generator(ctx):
    names = pool(ctx.seed, ctx.shard, 5 if ctx.tier == 'quick' else 40)
    prof = Profile()

    def element(g, depth, used):
        """random namespaced element: [tag uri, name, {prefix: uri}, attrs,
        text, children]"""
        nsmap = {}
        for _ in range(g.int(0, 2)):
            nsmap[g.pick(PREFS)] = g.pick(URIS)
        kids = []
        if depth < 3:
            for _ in range(g.int(0, 3 - depth)):
                if g.chance(12):
                    kids.append(['#', g.pick(['note', ' a b ', '']),
                                 g.pick(['', 'after'])])
                else:
                    kids.append(element(g, depth + 1, used))
        return [g.pick(URIS), g.pick(['one', 'two', 'config', 'filter']),
                [[k, v] for k, v in sorted(nsmap.items(), key=str)],
                [[g.pick(['', 'urn:a', NC_NS]), 'operation', 'merge']]
                if g.chance(25) else [],
                g.pick(['', 'v', 'a:v', 'x:w', ' sp ', '<&">']), kids]

    def gen(g):
        k = g.int(0, 9)
        if k < 5:
            name = g.pick(names)
            sch = schema(name)
            src, dst = pair(g, sch, prof)
            return {'kind': 'edit', 'schema': name,
                    'src': render(sch, src, gen_style(g)),
                    'dst': render(sch, dst, gen_style(g)),
                    'opts': gen_opts(g),
                    'form': g.pick(['nc', 'nc-kw', 'delta', 'delta-kw',
                                    'text', 'text-kw']),
                    'style': g.int(0, 3)}
        if k < 8:
            return {'kind': 'wire',
                    'ele': [element(g, 0, None) for _ in range(g.int(1, 3))],
                    'top': [[p, g.pick(URIS)] for p in PREFS
                            if g.chance(30)],
                    'outer': [[p, g.pick(URIS)] for p in PREFS
                              if g.chance(20)],
                    'form': g.pick(['element', 'inner', 'text']),
                    'kw': g.pick([True, False, 'pos']),
                    'caps': g.int(0, 3), 'target': g.pick(
                        [None, None, 'running', 'candidate', 'startup']),
                    'call': g.pick(['edit_config', 'execute']),
                    'options': {k: g.pick(v) for k, v in OPTIONS
                                if g.chance(30)}}
        return {'kind': 'filter', 'seed': ctx.seed * 1000 + ctx.shard * 10 +
                g.int(0, 3), 'op': g.pick(['get', 'get_config']),
                'models': [g.int(0, 5) for _ in range(g.int(1, 3))],
                'loaded': g.int(0, 63), 'str': g.chance(50),
                'source': g.pick([None, None, 'running', 'startup'])}
    return gen


def check(ctx, case):
    ctx.label(case['kind'])
    return globals()[case['kind']](ctx, case)


# -- difference, sent to the device and read back -------------------------------

def edit(ctx, case):
    sch = schema(case['schema'])
    dev = device(case['schema'])
    sess = dev.vp_session
    sess.data_xml = None
    sess.server = Server(sch)
    sess.style = Style(case['style'])
    src = normalise(parse(sch, case['src']))
    dst = normalise(parse(sch, case['dst']))

    def read():
        with sut('get_config and extract_config'):
            reply = dev.get_config(models=dev.models_loaded)
            require(reply.ok, 'get_config failed')
            return dev.extract_config(reply)

    def send(delta):
        nc = delta.nc
        if not len(nc):
            return
        f = case['form']
        n = len(sess.log)
        with sut('edit_config(%s)' % f):
            if f == 'nc':
                r = dev.edit_config(nc)
            elif f == 'nc-kw':
                r = dev.edit_config(config=nc, target='running')
            elif f == 'delta':
                r = dev.edit_config(delta)
            elif f == 'delta-kw':
                r = dev.edit_config(config=delta, target='running')
            elif f == 'text':
                r = dev.edit_config(str(delta))
            else:
                r = dev.edit_config(config=str(delta), target='running')
        require(r.ok, 'the device rejects: %s', r)
        require(len(sess.log) == n + 1, '%d messages were sent',
                len(sess.log) - n)

    sess.tree = [x.copy() for x in src]
    c1 = read()
    require(equal(parse_out(sch, c1.ele, 'config'), src),
            'config that was read is not that of the device')
    c2 = mkconfig(dev, case['dst'])
    with sut('delta'):
        delta = c2 - c1
        for k, v in case['opts'].items():
            setattr(delta, k, v)
    send(delta)
    require(equal(normalise(sess.tree), dst),
            'the device does not have the destination config')
    c3 = read()
    with sut('comparison'):
        require(c3 == c2, 'config read back is not the destination')
    with sut('reverse delta'):
        back = -delta
    send(back)
    require(equal(normalise(sess.tree), src),
            'the device does not have the first config again')
    # a whole config as content
    sess.tree = []
    for kw in (False, True):
        with sut('edit_config(Config)'):
            r = dev.edit_config(config=c2, target='running') if kw else \
                dev.edit_config(c2)
        require(r.ok, 'the device rejects a config')
        require(equal(normalise(sess.tree), dst),
                'a config that was sent is not there')
    return not equal(src, dst)


# -- messages are sent as they are ------------------------------------------------

def realise(spec, parent):
    if spec[0] == '#':
        c = etree.Comment(spec[1])
        c.tail = spec[2] or None
        parent.append(c)
        return
    uri, name, nsmap, attrs, text, kids = spec
    e = etree.SubElement(parent, '{%s}%s' % (uri, name),
                         nsmap={k: v for k, v in nsmap})
    for u, n, v in attrs:
        e.set('{%s}%s' % (u, n) if u else n, v)
    e.text = text or None
    for k in kids:
        realise(k, e)


def pure_text(e):
    return [e.text or ''] + [c.tail or '' for c in e
                             if not isinstance(c.tag, str)]


def same(a, b, path):
    require(a.tag == b.tag, '%s: %r was sent as %r', path, a.tag, b.tag)
    require(dict(a.attrib) == dict(b.attrib), '%s: attributes %r were sent '
            'as %r', path, dict(a.attrib), dict(b.attrib))
    if not any(isinstance(c.tag, str) for c in a) or \
       ''.join(pure_text(a)).strip():
        require(''.join(pure_text(a)) == ''.join(pure_text(b)),
                '%s: text %r was sent as %r', path, pure_text(a),
                pure_text(b))
    for p, u in a.nsmap.items():
        require(b.nsmap.get(p) == u, '%s: prefix %r is %r, was sent as %r',
                path, p, u, b.nsmap.get(p))
    ka = [c for c in a if isinstance(c.tag, str)]
    kb = [c for c in b if isinstance(c.tag, str)]
    require(len(ka) == len(kb), '%s: %d children were sent as %d', path,
            len(ka), len(kb))
    for i, (x, y) in enumerate(zip(ka, kb)):
        same(x, y, '%s/%s[%d]' % (path, etree.QName(x).localname, i))


_devs = {}


def plain(caps):
    d = _devs.get(caps)
    if d is None:
        base = [c for c in BASE_CAPS if c != WRITABLE]
        if caps & 1:
            base.append(CANDIDATE)
        if caps & 2:
            base.append(WRITABLE)
        base += ['urn:ietf:params:netconf:capability:' + x
                 for x in ('startup:1.0', 'validate:1.1',
                           'rollback-on-error:1.0')]
        d = make_device(yang={'nothing': (
            'module nothing { namespace "urn:a"; prefix n; leaf one { '
            'type string; } }')}, load=[], caps=base)
        _devs[caps] = d
    d.vp_session.server = None
    return d


def wire_(x):
    return etree.XML(etree.tostring(x))


def wire(ctx, case):
    from ncclient.operations.errors import MissingCapabilityError
    dev = plain(case['caps'])
    sess = dev.vp_session
    outer = etree.Element('{urn:o}outer', nsmap=dict(
        [('o', 'urn:o')] + [(p, u) for p, u in case['outer']]))
    top = etree.SubElement(outer, '{%s}config' % NC_NS,
                           nsmap={p: u for p, u in case['top']})
    for s in case['ele']:
        realise(s, top)
    outer = wire_(outer)        # namespaces settled by a parser
    top = outer[0]
    if case['form'] == 'element':
        top = wire_(top)
    arg = etree.tostring(top, encoding='unicode') \
        if case['form'] == 'text' else top
    before = etree.tostring(outer)
    args, kw = (arg,), {}
    if case['kw'] is True:
        args, kw = (), {'config': arg}
    if case['kw'] == 'pos' and case['target']:
        args = (arg, 'xml', case['target'])
    elif case['target']:
        kw['target'] = case['target']
    want = case['target'] or ('candidate' if case['caps'] & 1 or
                              not case['caps'] & 2 else 'running')
    need = {'candidate': 1, 'running': 2}.get(want, 0)
    kw.update(case.get('options', {}))

    def call():
        if case.get('call') == 'execute':
            return dev.execute('edit_config', *args, **kw)
        return dev.edit_config(*args, **kw)
    n = len(sess.log)
    if need & ~case['caps']:
        try:
            call()
        except MissingCapabilityError:
            require(len(sess.log) == n, 'sent in spite of the error')
            return False
        except Exception as e:
            raise Violation('edit_config to %s without that capability: %r' %
                            (want, e))
        return False
    with sut('edit_config'):
        r = call()
    require(r.ok and len(sess.log) == n + 1, 'not exactly one message')
    require(etree.tostring(outer) == before, 'the argument was changed')
    rpc = etree.XML(sess.log[-1].encode())
    op = rpc[0]
    require(op.tag == '{%s}edit-config' % NC_NS, 'operation is %s', op.tag)
    target = op.find('{%s}target' % NC_NS)
    require([c.tag for c in target] == ['{%s}%s' % (NC_NS, want)],
            'target is %r, should be %s', [c.tag for c in target], want)
    got = op.findall('{%s}config' % NC_NS)
    require(len(got) == 1, '%d configs were sent', len(got))
    same(top, got[0], 'config')
    for k, _ in OPTIONS:
        x = [c.text for c in op.findall('{%s}%s' % (NC_NS,
                                                    k.replace('_', '-')))]
        y = [case['options'][k]] if k in case.get('options', {}) else []
        require(x == y, '%s was sent as %r, should be %r', k, x, y)
    require(len(op) == 2 + len(case.get('options', {})),
            'parameters were sent that nobody gave: %r', [c.tag for c in op])
    try:
        dev.execute('edit_konfig', *args, **kw)
    except ValueError:
        pass
    except Exception as e:
        raise Violation('an unknown operation gives %r' % (e,))
    else:
        raise Violation('an unknown operation was accepted')
    require(len(sess.log) == n + 1, 'an unknown operation was sent')
    return len(list(top.iter())) > 2


# -- filters by model, names in replies ---------------------------------------------

_mods = {}


def modelled(seed):
    if seed not in _mods:
        r = random.Random(seed)
        sch, yang, sp = build({'schema': r.randint(0, 10 ** 6),
                               'spelling': 1, 'rate': 0,
                               'rich': r.random() < 0.2})
        modules = [m.name for m in sch.modules]
        # prefixes are chosen by each module, nothing makes them unique
        for n, p in (('vp-twin', sch.modules[0].prefix), ('vp-yang', 'yang'),
                     ('vp-ns', 'ns00'), ('vp-nc', 'nc')):
            yang[n] = ('module %s { namespace "urn:%s"; prefix %s; leaf one {'
                       ' type string; } }' % (n, n, p))
        dev = make_device(yang=yang, load=[],
                          caps=capabilities(modules))
        _mods[seed] = sch, dev, {
            m: dev.compiler.compile(m) for m in modules}
    return _mods[seed]


def filter(ctx, case):
    from ncdiff.errors import ModelMissing
    sch, dev, models = modelled(case['seed'])
    sess = dev.vp_session
    sess.data_xml = ''
    names = sorted(models)
    loaded = [m for i, m in enumerate(names) if case['loaded'] >> i & 1]
    dev.models = {}
    for m in loaded:
        with sut('load_model(%s)' % m):
            dev.load_model(m)
    require(dev.models_loaded == loaded, 'models_loaded is %r',
            dev.models_loaded)
    asked = sorted({names[i % len(names)] for i in case['models']})
    ok = ('read-write', 'read-only') if case['op'] == 'get' else \
        ('read-write',)
    roots = []

    def collect(n):
        if n.kind in ('choice', 'case'):
            for c in n.children:
                collect(c)
        elif n.kind not in ('rpc', 'notification') and \
                modelgen.access(n) in ok:
            roots.append(n.tag)
    for n in sch.root.children:
        if n.mod.name in asked:
            collect(n)
    arg = asked[0] if case['str'] and len(asked) == 1 else asked
    kw = {'models': arg}
    if case['source'] and case['op'] == 'get_config':
        kw['source'] = case['source']
    n = len(sess.log)
    f = getattr(dev, case['op'])
    missing = set(asked) - set(loaded)
    if missing or not roots:
        try:
            f(**kw)
        except ModelMissing as e:
            require(missing, 'ModelMissing: %s', e)
        except ValueError as e:
            require(not missing, 'ValueError: %s', e)
        except Exception as e:
            raise Violation('%s(models=%r): %r' % (case['op'], arg, e))
        else:
            raise Violation('%s(models=%r) was sent, missing %r, roots %r' %
                            (case['op'], arg, sorted(missing), roots))
        require(len(sess.log) == n, 'something was sent')
        return False
    with sut('%s(models=%r)' % (case['op'], arg)):
        reply = f(**kw)
    require(reply.ok and len(sess.log) == n + 1, 'not one message')
    op = etree.XML(sess.log[-1].encode())[0]
    require(op.tag == '{%s}%s' % (NC_NS, case['op'].replace('_', '-')),
            'operation is %s', op.tag)
    if case['op'] == 'get_config':
        s = op.find('{%s}source' % NC_NS)
        require([c.tag for c in s] == ['{%s}%s' % (
            NC_NS, case['source'] or 'running')], 'source is %r',
            [c.tag for c in s])
    fs = op.findall('{%s}filter' % NC_NS)
    require(len(fs) == 1 and fs[0].get('type') == 'subtree',
            'no subtree filter')
    got = [c.tag for c in fs[0]]
    require(sorted(got) == sorted(roots), 'filter has %r, should have %r',
            got, sorted(roots))
    require(all(not len(c) and not c.attrib and not (c.text or '').strip()
                for c in fs[0]), 'filter selects parts of a root')
    # names in the reply
    sess.data_xml = ''.join(
        '<%s xmlns="%s"/>' % (t.split('}')[1], t[1:].split('}')[0])
        for t in roots) + ''.join(
            '<one xmlns="urn:%s"/>' % n for n in
            ('vp-twin', 'vp-yang', 'vp-ns', 'vp-nc')) + '<other xmlns="urn:unknown:1"><p:x ' \
        'xmlns:p="urn:unknown:2"/></other>'
    with sut('reply'):
        reply = dev.get()
        namespaces(sch, reply, reply._root, roots, '/nc:rpc-reply/nc:data')
    with sut('take_notification'):
        left = [etree.tostring(x, encoding='unicode') for x in (
            notification(sess.data_xml), notification(''))]
        asked = []

        def take(block=True, timeout=None):
            from ncclient.transport.notify import Notification
            asked.append((block, timeout))
            return Notification(left.pop(0)) if left else None
        sess.take_notification = take
        try:
            note = dev.take_notification(timeout=1)
            namespaces(sch, note, note.notification_ele, roots, '/*')
            note = dev.take_notification(False)
            require(set(note.ns.values()) == {NOTE_NS}, 'ns is %r', note.ns)
            require(dev.take_notification(block=False, timeout=3) is None,
                    'a notification from nowhere')
        finally:
            del sess.take_notification
        require(asked == [(True, 1), (False, None), (False, 3)],
                'take_notification was called with %r', asked)
    return len(roots) > 1


NOTE_NS = 'urn:ietf:params:xml:ns:netconf:notification:1.0'


def notification(body):
    return etree.XML('<notification xmlns="%s"><eventTime>2024-01-01T00:00:'
                     '00Z</eventTime>%s</notification>' % (NOTE_NS, body))


def namespaces(sch, reply, root, roots, top):
    """namespaces of a reply or notification"""
    ns = reply.ns
    require(len(set(ns.values())) == len(ns), 'namespaces twice: %r', ns)
    by = {u: p for p, u in ns.items()}
    for e in root.iter():
        u = etree.QName(e).namespace
        require(u in by, 'namespace %s is not in ns', u)
    for m in sch.modules:
        if m.ns in by and by['urn:vp-twin'] != m.prefix:
            require(by[m.ns] == m.prefix, 'prefix of %s is %s', m.name,
                    by[m.ns])
    for u in ('urn:vp-twin', 'urn:vp-yang', 'urn:vp-ns', 'urn:vp-nc'):
        x = reply.xpath('//%s:one' % by[u])
        require([e.tag for e in x] == ['{%s}one' % u], 'xpath finds %r', x)
        x = reply.xpath('//q:one', namespaces={'q': u})
        require([e.tag for e in x] == ['{%s}one' % u], 'xpath finds %r', x)
    if NC_NS in by:
        require(by[NC_NS] == 'nc', 'prefix of NETCONF is %r', by[NC_NS])
    for t in roots:
        u, l = t[1:].split('}')
        x = reply.xpath('%s/%s:%s' % (top, by[u], l))
        require([e.tag for e in x] == [t] * roots.count(t),
                'xpath finds %r', x)
    again = etree.XML(str(reply).encode())
    require([e.tag for e in again.iter()] == [e.tag for e in root.iter()],
            'str(reply) differs')
    require(root.tag in repr(reply), 'repr is %r', reply)
