"""A device goes by the models that were loaded last, whatever came before."""
import os
import random

from lxml import etree

from .common import *
from vp.device import capabilities, scratch, write_yang
from vp.gen import random_schema
from vp.modelgen import expected
from vp.schema import SNode as N
from vp.yangtext import spell
from . import P16

CASES = {'quick': 600, 'thorough': 12000}
RULE = ('a model was replaced by another version of it after nodes of it had '
        'been resolved, and a config was resolved again')
VERSIONS = 3
_cache = {}


def versions(seed):
    """[(schema, speller, folder of YANG files, {name: compiled file})]"""
    if seed in _cache:
        return _cache[seed]
    out = []
    r = random.Random(seed)
    edits = [[], [r.randint(0, 10 ** 6) for _ in range(3)],
             [r.randint(0, 10 ** 6) for _ in range(6)]]
    for i, es in enumerate(edits):
        sch = random_schema(seed)
        sch.name = 'v%d' % i
        if getattr(sch, 'extra', None) is None:
            sch.extra = N('root', '')
        for e in es:
            P16.edit(sch, e)
        if i == 2:
            sch.modules[-1].prefix += 'z'
        for n in [sch.root] + list(sch.root.walk()):
            n._data = n._byid = None
        yang, sp = spell(sch, random.Random(seed + i), 0.2 * i)
        folder = scratch()
        write_yang(yang, folder)
        other = scratch()
        write_yang(yang, other)
        files = {}
        from ncdiff.model import ModelCompiler
        with sut('compilation'):
            c = ModelCompiler(other)
            for m in sch.modules:
                c.compile(m.name)
        for m in sch.modules:
            files[m.name] = os.path.join(other, m.name + '.xml')
            if not os.path.isfile(files[m.name]):
                raise Violation('compilation left no compiled model')
        out.append((sch, sp, folder, files))
    _cache[seed] = out
    return out


def tree_of(g, sch, prof, mod):
    t = gen_tree(g, sch, prof, 60)
    return [d for d in t if top(d.s).mod is mod]


def top(s):
    while s.parent.kind != 'root':
        s = s.parent
    return s


def generator(ctx):
    prof = Profile()
    seeds = [(ctx.seed * 1000 + ctx.shard) * 100 + i
             for i in range(3 if ctx.tier == 'quick' else 12)]

    def gen(g):
        seed = g.pick(seeds)
        vs = versions(seed)
        ops = []
        if not g.chance(10):
            ops.append(['scan', g.int(0, VERSIONS - 1)])
        nm = len(vs[0][0].modules)
        few = [g.int(0, nm - 1) for _ in range(g.int(1, 2))]
        for _ in range(g.int(4, 14)):
            k = g.int(0, 19)
            m = g.pick(few) if not g.chance(10) else g.int(0, nm - 1)
            if k < 2:
                ops.append(['scan', g.int(0, VERSIONS - 1)])
            elif k < 6:
                ops.append(['load', m])
            elif k < 10:
                ops.append(['file', g.int(0, VERSIONS - 1), m])
            elif k < 11:
                ops.append(['bad', g.pick(['nothing', '/etc/hostname',
                                           'yang', ''])])
            else:
                xmls = []
                for v in vs:
                    sch = v[0]
                    xmls.append(render(sch, tree_of(g, sch, prof,
                                                    sch.modules[m]),
                                       gen_style(g)))
                ops.append(['use', m, xmls])
        return {'seed': seed, 'ops': ops}
    return gen


def resolve(dev, name, sch, sp, e, s, path):
    for c in e:
        tag = etree.QName(c)
        n = s.child(tag.namespace, tag.localname)
        require(n is not None, '%s was kept as a child of %s', c.tag, path)
        p = path + '/' + n.name
        with sut('get_schema_node'):
            x = dev.get_schema_node(c)
        require(x.getroottree().getroot() is dev.models[name].tree,
                '%s is resolved in a tree that is not the loaded model', p)
        require(x.tag == c.tag, '%s is resolved as %s', p, x.tag)
        up = x.getparent()
        while up.get('type') in ('choice', 'case'):
            up = up.getparent()
        require(up.tag == (e.tag if s.kind != 'root' else name),
                '%s is resolved below %s', p, up.tag)
        for k, v in expected(n, sp).items():
            got = x.get(k)
            require(got == v, '%s: %s is %r, should be %r in the version '
                    'loaded last', p, k, got, v)
        resolve(dev, name, sch, sp, c, n, p)


def check(ctx, case):
    from ncdiff import Config
    from ncdiff import manager as ncmanager
    from ncdiff.errors import ModelMissing
    from ncclient.devices.default import DefaultDeviceHandler
    from vp.device import Session
    vs = versions(case['seed'])
    names = [m.name for m in vs[0][0].modules]
    dev = ncmanager.ModelDevice(Session(capabilities(names)),
                                DefaultDeviceHandler())
    loaded = {}         # name -> version
    scanned = None
    uses = {}
    kept = []
    fresh = False
    for op in case['ops']:
        ctx.label(op[0])
        if op[0] == 'scan':
            with sut('scan_models'):
                dev.scan_models(folder=vs[op[1]][2], download='ignore')
            scanned = op[1]
        elif op[0] in ('load', 'file'):
            name = names[op[-1]]
            v = op[1] if op[0] == 'file' else scanned
            if v is None:
                before = dict(dev.models)
                try:
                    dev.load_model(name)
                except ValueError:
                    require(dev.models == before, 'a failed load changed '
                            'the models')
                    continue
                raise Violation('a model was loaded without YANG files')
            with sut('load_model'):
                m = dev.load_model(vs[v][3][name] if op[0] == 'file'
                                   else name)
            require(m.name == name and dev.models.get(name) is m,
                    'load_model does not return the loaded model')
            if loaded.get(name, v) != v and name in uses:
                uses[name] = 'replaced'
            loaded[name] = v
        elif op[0] == 'bad':
            before = dict(dev.models)
            try:
                dev.load_model(op[1])
                raise Violation('load_model(%r) is accepted' % op[1])
            except ValueError:
                pass
            except Violation:
                raise
            except Exception as e:
                raise Violation('load_model(%r) raised %r' % (op[1], e))
            require(dev.models == before, 'a failed load changed the models')
        elif op[0] == 'use':
            name = names[op[1]]
            v = loaded.get(name, 0)
            sch, sp = vs[v][:2]
            xml = op[2][v]
            if scanned is None:
                continue        # no namespaces are known
            if name not in loaded:
                if not len(etree.XML(xml)):
                    continue
                try:
                    Config(dev, xml)
                except ModelMissing:
                    continue
                except Exception as e:
                    raise Violation('config of a model that is not loaded: '
                                    '%r' % e)
                raise Violation('config of a model that is not loaded')
            c = mkconfig(dev, xml)
            t = normalise(parse(sch, xml), ('obsolete',))
            require(equal(parse_out(sch, c.ele, 'config'), t),
                    'the config is not what was given')
            with sut('models'):
                require(c.models == ([name] if t else []),
                        'models of the config are %r', c.models)
            resolve(dev, name, sch, sp, c.ele, sch.root, '')
            if uses.get(name) == 'replaced' and t:
                fresh = True
            if t:
                uses.setdefault(name, 'used')
            kept.append((c, str(c)))
        with sut('models_loaded'):
            require(dev.models_loaded == sorted(loaded),
                    'loaded models are %r', dev.models_loaded)
        roots = {}
        for name, v in loaded.items():
            for n in vs[v][0].root.data_children:
                if top(n).mod.name == name:
                    roots[n.tag] = name
        with sut('roots'):
            require(dev.roots == roots, 'roots are %r, should be %r',
                    dev.roots, roots)
        if scanned is not None:
            want = {(f.mod.name, f.mod.prefix, f.mod.ns)
                    for f in vs[scanned][1].files if not f.sub}
            with sut('namespaces'):
                got = list(dev.namespaces)
            require(len(got) == len(set(got)) and set(got) == want,
                    'namespaces are %r, should be %r', sorted(got),
                    sorted(want))
    for c, text in kept:
        require(str(c) == text, 'a config changed when models were loaded')
    return fresh
