"""Downloading models: completeness, skipping, faults, interruptions."""
import os
import shutil
import sys
import time

from .common import *
from vp.device import Session, BASE_CAPS, NCM, scratch

CASES = {'quick': 700, 'thorough': 12000}
RULE = ('more than one module was downloaded, and a dependency that was not '
        'announced, a fault, an interruption or an unchanged folder is '
        'involved')

KINDS = ['rpc-error', 'garbage', 'drop', 'empty']


def generator(ctx):
    def gen(g):
        n = g.int(1, 6)
        mods = []
        for i in range(n):
            name = g.pick(['m', '_m', 'M-', 'a.', 'x_', 'very-long-']) + \
                g.pick(['', 'b', '-c', '.d', '_e', '9']) + str(i)
            mods.append({
                'name': name, 'announced': g.chance(60),
                'sub': i > 0 and g.chance(30),
                'deps': sorted({g.int(0, i - 1) for _ in range(g.int(0, 2))})
                if i else [],
                'rev': g.chance(70)})
        ops = []
        for _ in range(g.int(1, 5)):
            k = g.pick(['scan', 'scan', 'scan', 'crash', 'cut', 'upgrade',
                        'patch', 'fault', 'heal', 'junk', 'rmdeps',
                        'announce', 'extra', 'order'])
            ops.append([k, g.pick(['check', 'check', 'force', 'ignore']),
                        g.int(0, 10) if k == 'crash' else g.int(0, 30),
                        g.pick(KINDS)])
        return {'mods': mods, 'ops': ops,
                'slow': [g.int(0, 3) for _ in mods] if g.chance(40) else [],
                'raise': g.int(0, 2),
                'hello': g.pick(['all', 'all', 'base']),
                'monitoring': g.pick([None, None, 'list', 'error']),
                'yanglib': g.pick([None, None, 'list', 'error'])}
    return gen


class Dev:
    """what the device has; survives reconnections"""

    def __init__(self, case):
        self.case = case
        self.mods = [dict(m) for m in case['mods']]
        self.owner = {}
        for i, m in enumerate(self.mods):
            if m['sub']:
                # submodule of the module before it that is not a submodule
                j = max(k for k in range(i) if not self.mods[k]['sub'])
                self.owner[i] = j
        self.generation = [0] * len(self.mods)
        self.minor = 0
        self.faults = {}
        self.extra = set()
        self.backwards = False
        self.versions = {m['name']: set() for m in self.mods}
        self.render()

    def name(self, i):
        return self.mods[i]['name']

    def deps(self, i):
        """imports and includes of i, by index"""
        out = {'import': [], 'include': []}
        for d in self.mods[i]['deps']:
            if d in self.owner:
                d = self.owner[d]
            if d != i and d != self.owner.get(i):
                out['import'].append(d)
        for s, o in self.owner.items():
            if o == i:
                out['include'].append(s)
        # no circles: a module imports only modules before it, a submodule
        # only modules before its owner
        lim = self.owner.get(i, i)
        out['import'] = sorted({d for d in out['import'] if d < lim})
        return out

    def render(self):
        self.yang = {}
        for i, m in enumerate(self.mods):
            d = self.deps(i)
            o = ['%s %s {' % ('submodule' if m['sub'] else 'module',
                              m['name'])]
            o.append('  yang-version 1.1;')
            if m['sub']:
                o.append('  belongs-to %s { prefix own; }' %
                         self.name(self.owner[i]))
            else:
                o.append('  namespace "urn:vp:dl:%d";' % i)
                o.append('  prefix p%d;' % i)
            for x in d['import']:
                o.append('  import %s { prefix i%d; }' % (self.name(x), x))
            for x in d['include']:
                o.append('  include %s;' % self.name(x))
            if m['rev']:
                o.append('  revision %d-01-01;' % (2000 +
                                                   self.generation[i]))
            o.append('  leaf leaf-%d { type string; description "\u00e9 %d <&>'
                     ' %d"; }' % (i, self.generation[i], self.minor))
            o.append('}')
            self.yang[m['name']] = '\n'.join(o) + '\n'
        for n, t in self.yang.items():
            self.versions[n].add(t)

    def announced(self):
        return sorted(m['name'] for i, m in enumerate(self.mods)
                      if m['announced'] and not m['sub'])

    def caps(self):
        c = list(BASE_CAPS)
        if self.case['monitoring']:
            c.append(NCM + '?module=ietf-netconf-monitoring&revision='
                     '2010-10-04')
        if self.case['yanglib']:
            c.append('urn:ietf:params:netconf:capability:yang-library:1.0'
                     '?revision=2016-06-21&module-set-id=%d' %
                     sum(self.generation))
        if self.case['hello'] == 'all':
            for i, m in enumerate(self.mods):
                if m['announced'] and not m['sub']:
                    c.append('urn:vp:dl:%d?module=%s%s' % (
                        i, m['name'], '&revision=%d-01-01&features=a,b' % (
                            2000 + self.generation[i]) if m['rev'] else ''))
        c += ['urn:ietf:params:netconf:capability:' + x
              for x in sorted(self.extra)]
        return c[::-1] if self.backwards else c

    def loadable(self):
        """what models_loadable has to be"""
        if self.case['monitoring'] == 'list':
            return self.announced()
        if self.case['yanglib'] == 'list':
            return self.announced()
        out = self.announced() if self.case['hello'] == 'all' else []
        if self.case['monitoring']:
            out = sorted(out + ['ietf-netconf-monitoring'])
        return out

    def session(self):
        return FaultySession(self)

    def closure(self):
        """({name: text or None}, names that have to be asked for)"""
        by = {m['name']: i for i, m in enumerate(self.mods)}
        todo = list(self.loadable())
        asked, files = set(), {}
        lost = False
        while todo:
            n = todo.pop()
            if n in asked:
                continue
            asked.add(n)
            f = self.faults.get(n)
            if n not in by or f == 'rpc-error':
                continue
            if f in ('drop', 'empty'):
                lost = lost or f == 'drop'
                continue
            if f == 'garbage':
                files[n] = GARBAGE
                continue
            files[n] = None
            d = self.deps(by[n])
            todo += [self.name(x) for x in d['import'] + d['include']]
        return files, asked, lost

    def usable(self, files):
        """modules whose dependencies are all there and readable"""
        by = {m['name']: i for i, m in enumerate(self.mods)}
        if GARBAGE in files.values():
            # compiling looks at all modules that import a module, and pyang
            # cannot read some truncated files
            return []

        def ok(i, seen=()):
            if files.get(self.name(i), GARBAGE) == GARBAGE:
                return False
            d = self.deps(i)
            return all(ok(x) for x in d['import'] + d['include'])
        return [by[n] for n in files if n in by and
                not self.mods[by[n]]['sub'] and ok(by[n])]


GARBAGE = 'module nothing {\n  prefix'


class FaultySession(Session):
    def __init__(self, dev):
        lib = dev.case['yanglib']
        mon = dev.case['monitoring']
        Session.__init__(
            self, dev.caps(), yang=dict(dev.yang),
            monitoring=dev.announced() if mon == 'list' else mon,
            yanglib=dev.announced() if lib == 'list' else lib)
        for n, f in dev.faults.items():
            if f == 'rpc-error':
                self.schema_faults[n] = f
            elif f == 'garbage':
                self.yang[n] = GARBAGE
        self.dev = dev
        self.on_request = None

    def handle(self, op):
        ident = op.findtext('{%s}identifier' % NCM)
        if self.on_request and ident:
            self.on_request()
        # answers take time: other orders of what the workers do
        slow = self.dev.case.get('slow')
        by = [m['name'] for m in self.dev.mods]
        if slow and ident in by:
            time.sleep(slow[by.index(ident)] * 0.004)
        f = self.dev.faults.get(ident)
        if f == 'drop':
            from ncclient.transport.errors import SessionCloseError
            with self.lock:
                self.get_schema_count[ident] = 1
            raise SessionCloseError('connection lost')
        if f == 'empty':
            with self.lock:
                self.get_schema_count[ident] = 1
            return '<data xmlns="%s"/>' % NCM
        return Session.handle(self, op)


def connect(dev):
    from ncclient.devices.default import DefaultDeviceHandler
    from ncdiff.manager import ModelDevice
    s = dev.session()
    d = ModelDevice(s, DefaultDeviceHandler())
    d.raise_mode = dev.case.get('raise', 1)
    return d, s


def yang_files(folder):
    out = {}
    for f in os.listdir(folder):
        if f.endswith('.yang'):
            with open(os.path.join(folder, f), 'rb') as h:
                out[f[:-5]] = h.read().decode('utf-8')
    return out


def everything(folder):
    out = {}
    for f in os.listdir(folder) if os.path.isdir(folder) else []:
        with open(os.path.join(folder, f), 'rb') as h:
            out[f] = h.read()
    return out


def caps_match(dev, folder):
    p = os.path.join(folder, 'capabilities.txt')
    if not os.path.isfile(p):
        return False
    with open(p, 'rb') as h:
        have = h.read().decode('utf-8')
    return have.split('\n') == sorted(dev.caps())


def crash(dev, folder, mode, k):
    """scan_models in a child process that dies at its k-th file operation
    or request; True when it died"""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            left = [k]

            def tick():
                if left[0] == 0:
                    os._exit(9)
                left[0] -= 1

            def hook(event, args):
                if event == 'os.remove' or event == 'open' and \
                   isinstance(args[0], str) and \
                   args[0].startswith(folder) and \
                   isinstance(args[1], str) and 'w' in args[1]:
                    tick()
            d, s = connect(dev)
            s.on_request = tick
            sys.addaudithook(hook)
            d.scan_models(folder=folder, download=mode)
            os._exit(0)
        except BaseException:
            os._exit(1)
    try:
        _, st = os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        raise
    rc = os.waitstatus_to_exitcode(st)
    require(rc in (0, 9), 'scan_models(%s) failed in a child process', mode)
    return rc == 9


def check(ctx, case):
    if not any(not m['sub'] for m in case['mods'][:1]):
        return False
    dev = Dev(case)
    folder = os.path.join(scratch(), 'yang')
    notable = False
    trusted = False     # the folder was left by downloads only
    expected = None     # {name: text or None} of the last complete download
    try:
        for n, (op, mode, k, kind) in enumerate(case['ops'] +
                                                [['scan', 'check', 0, '']]):
            what = 'operation %d (%s %s)' % (n, op, mode)
            i = k % len(dev.mods)
            if op == 'upgrade':
                dev.generation[i] += 1
                dev.minor += 1
                dev.render()
            elif op == 'patch':
                dev.minor += 1
                dev.render()
            elif op == 'announce':
                dev.mods[i]['announced'] ^= True
            elif op == 'extra':
                dev.extra ^= {['candidate:1.0', 'startup:1.0',
                               'validate:1.1'][k % 3]}
            elif op == 'order':
                dev.backwards ^= True
            elif op == 'fault':
                dev.faults[dev.name(i)] = kind
            elif op == 'heal':
                dev.faults.clear()
            elif op == 'junk' and os.path.isdir(folder):
                p = os.path.join(folder, ['stray.txt', 'old.yang',
                                          'dependencies.xml.bak',
                                          'm0.xml'][k % 4])
                with open(p, 'w') as h:
                    h.write('rubbish')
                trusted = trusted and k % 4 in (0, 2)
            elif op == 'cut':
                p = os.path.join(folder, 'capabilities.txt')
                if os.path.isfile(p):
                    with open(p, 'rb') as h:
                        t = h.read()
                    with open(p, 'wb') as h:
                        h.write(t[:len(t) * k // 31])
            elif op == 'rmdeps':
                p = os.path.join(folder, 'dependencies.xml')
                if os.path.isfile(p):
                    os.remove(p)
            elif op == 'crash':
                if mode == 'ignore':
                    continue
                full = not caps_match(dev, folder) or mode == 'force'
                before = everything(folder)
                died = crash(dev, folder, mode, k)
                notable = notable or died
                ctx.label('crash' if died else 'no crash')
                # when it died before it touched anything, the folder is as
                # good as it was
                if full and not (died and before and
                                 everything(folder) == before):
                    files, _, lost = dev.closure()
                    expected = files
                    trusted = True
                    if lost:
                        trusted = None
            elif op == 'scan':
                before = yang_files(folder) if os.path.isdir(folder) else {}
                if mode == 'ignore':
                    if not os.path.isdir(folder):
                        continue
                    full = False
                else:
                    match = caps_match(dev, folder)
                    full = mode == 'force' or not match
                    if trusted is None and match:
                        raise Violation(
                            '%s: the folder is regarded as complete, but a '
                            'download failed when the connection was lost' %
                            what)
                d, s = connect(dev)
                with sut(what):
                    d.scan_models(folder=folder, download=mode)
                    loadable = d.models_loadable
                    d.namespaces
                after = yang_files(folder)
                files, asked, lost = dev.closure()
                require(loadable == dev.loadable(),
                        '%s: models_loadable is %r, should be %r', what,
                        loadable, dev.loadable())
                if full:
                    ctx.label('download')
                    require(set(s.get_schema_count) == asked,
                            '%s: asked for %r, should be %r', what,
                            sorted(s.get_schema_count), sorted(asked))
                    want = {x: dev.yang[x] if t is None else t
                            for x, t in files.items()}
                    for x, f in dev.faults.items():
                        if f == 'empty' and after.get(x) == '':
                            del after[x]
                    require(after == want, '%s: the folder has %r, should '
                            'have %r (or with other content)', what,
                            sorted(after), sorted(want))
                    rest = {f for f in os.listdir(folder)
                            if not f.endswith('.yang')}
                    require(rest <= {'capabilities.txt', 'dependencies.xml'},
                            '%s: %r was not removed', what, sorted(rest))
                    expected = files
                    trusted = None if lost else True
                    if not lost:
                        require(caps_match(dev, folder), '%s: '
                                'capabilities.txt is not that of the device',
                                what)
                    if len(want) > 1 and (asked - set(dev.loadable()) or
                                          dev.faults):
                        notable = True
                else:
                    ctx.label('no download')
                    require(not s.get_schema_count, '%s: downloaded %r '
                            'without need', what, sorted(s.get_schema_count))
                    require(after == before, '%s: YANG files were changed',
                            what)
                    notable = notable or len(after) > 1
                    if mode == 'check' and trusted:
                        after = {x: t for x, t in after.items()
                                 if t or x in expected}
                        require(set(after) == set(expected),
                                '%s: the folder is regarded as complete, but '
                                'has %r instead of %r', what, sorted(after),
                                sorted(expected))
                        for x, t in after.items():
                            require(t in (expected[x],) or
                                    expected[x] is None and
                                    t in dev.versions[x],
                                    '%s: content of %s.yang is wrong', what,
                                    x)
                if (full or trusted and mode == 'check'):
                    models(d, dev, expected, what, k)
    finally:
        shutil.rmtree(os.path.dirname(folder), ignore_errors=True)
    return notable


def models(d, dev, files, what, k):
    ns = {x[0]: x[1:] for x in d.namespaces}
    for x, t in files.items():
        if t is None:
            i = [m['name'] for m in dev.mods].index(x)
            if not dev.mods[i]['sub']:
                require(ns.get(x) == ('p%d' % i, 'urn:vp:dl:%d' % i),
                        '%s: namespaces has %r for %s', what, ns.get(x), x)
    ok = dev.usable(files)
    if not ok:
        return
    i = sorted(ok)[k % len(ok)]
    with sut('%s: compile(%s)' % (what, dev.name(i))):
        m = d.compiler.compile(dev.name(i))
    got = {c.tag for c in m.tree}
    want = {'{urn:vp:dl:%d}leaf-%d' % (i, j)
            for j in [i] + dev.deps(i)['include']}
    require(got == want, '%s: model %s has %r, should have %r', what,
            dev.name(i), sorted(got), sorted(want))
