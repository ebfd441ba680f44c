"""A compiled model depends only on the YANG files."""
import json
import os
import random
import shutil
import subprocess
import sys

from .common import *
from vp import modelgen
from vp.device import scratch, write_yang, make_device
from vp.runner import VERIF
from .P14 import build

CASES = {'quick': 40, 'thorough': 1200}
RULE = 'the schema has more than one module'

CHILD = '''
import json, sys, warnings
warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)
from ncdiff.model import ModelCompiler
def struct(e):
    return [e.tag, sorted(e.attrib.items()), [struct(c) for c in e]]
d, mods = sys.argv[1], sys.argv[2:]
c = ModelCompiler(d)
out = {}
for m in mods:
    x = c.compile(m)
    out[m] = [struct(x.tree), str(x)]
print(json.dumps(out))
'''


JUNK = [b'module junk {', b'\xe9\xff\x00', b'', b'module junk { prefix \xe9; }',
        b'<xml/>', b'module other { yang-version 1.1; namespace "urn:o"; '
        b'prefix o; import nowhere { prefix n; } leaf x { type n:t; } }']


def generator(ctx):
    def gen(g):
        n = g.int(1, 6)
        return {'schema': g.int(0, 10 ** 6), 'spelling': g.int(0, 10 ** 6),
                'rate': g.pick([0, 20, 35, 60]), 'rich': g.int(0, 9) == 0,
                'order': g.int(0, 10 ** 6), 'hash': g.int(1, 10 ** 6),
                'junk': g.int(0, len(JUNK)),
                'child': g.int(0, 7) == 0,
                'ops': [[g.pick(['compile', 'compile', 'cut', 'rm-cache',
                                 'rm-deps', 'new', 'empty']),
                         g.int(0, 9), g.int(0, 99)] for _ in range(n)]}
    return gen


def fresh(d):
    from ncdiff.model import ModelCompiler
    with sut('ModelCompiler'):
        return ModelCompiler(d)


def struct(e):
    return [e.tag, [list(x) for x in sorted(e.attrib.items())],
            [struct(c) for c in e]]


def text(model):
    return [struct(model.tree), str(model), model.name,
            model.prefix, sorted(model.prefixes.items()), model.url,
            sorted(model.roots)]


def compile_(c, name):
    with sut('compile(%s)' % name):
        return text(c.compile(name))


def check(ctx, case):
    sch, yang, sp = build(case)
    names = [m.name for m in sch.modules]
    ref = {}
    dirs = []

    def folder(order):
        d = scratch()
        dirs.append(d)
        items = list(yang.items())
        random.Random(order).shuffle(items)
        write_yang(dict(items), d)
        if case['junk']:
            # a file that cannot be read, or is of no module here
            with open(os.path.join(d, 'junk.yang'), 'wb') as f:
                f.write(JUNK[case['junk'] - 1])
        return d

    try:
        # every model by a compiler of its own
        for n in names:
            d = folder(case['order'] + len(dirs))
            ref[n] = compile_(fresh(d), n)
        d = folder(case['order'])
        files = sorted(os.listdir(d))
        c = fresh(d)
        order = list(names)
        random.Random(case['order']).shuffle(order)
        for n in order:
            require(compile_(c, n) == ref[n], 'model %s differs when other '
                    'models are compiled before it', n)
        ns = {x.get('id') for x in c.context.dependencies}
        require(ns - {'junk', 'other'} == set(yang), 'dependencies know %r', sorted(ns))
        # a history of compilers, caches that are lost or cut off
        for op, i, k in case['ops']:
            n = names[i % len(names)]
            cache = os.path.join(d, n + '.xml')
            deps = os.path.join(d, 'dependencies.xml')
            if op == 'new':
                c = fresh(d)
            elif op == 'rm-cache':
                if os.path.exists(cache):
                    os.unlink(cache)
            elif op == 'rm-deps':
                if os.path.exists(deps):
                    os.unlink(deps)
                c = fresh(d)
            elif op in ('cut', 'empty'):
                # a crash while the file was written
                f = deps if k % 2 else cache
                if os.path.exists(f):
                    b = open(f, 'rb').read().rstrip()
                    with open(f, 'wb') as o:
                        o.write(b[:(len(b) - 1) * k // 100]
                                if op == 'cut' else b'')
                if f == deps:
                    c = fresh(d)
            for x in (names if op == 'new' else [n]):
                require(compile_(c, x) == ref[x], 'model %s differs after '
                        '%s', x, op)
            ctx.label(op)
        left = {f for f in os.listdir(d)
                if f not in files and not f.endswith('.xml')}
        require(not left, 'left in the folder of YANG files: %r', left)
        for n, t in yang.items():
            with open(os.path.join(d, n + '.yang'), 'rb') as f:
                require(f.read().decode() == t, '%s.yang was changed', n)
        if case['child']:
            d = folder(case['order'] + 77)
            src = os.environ.get('VP_REPO_SRC', '/repo/src')
            p = subprocess.run(
                [sys.executable, '-c', CHILD, d] + order,
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                timeout=50,
                env={**os.environ, 'PYTHONPATH': src,
                     'PYTHONDONTWRITEBYTECODE': '1',
                     'PYTHONHASHSEED': str(case['hash'])})
            require(p.returncode == 0, 'compilation failed in another '
                    'process: %s', p.stderr[-300:])
            for n, t in json.loads(p.stdout.splitlines()[-1]).items():
                require(t == ref[n][:2], 'model %s differs in another '
                        'process', n)
            ctx.label('other process')
    finally:
        for x in dirs:
            shutil.rmtree(x, ignore_errors=True)
    ctx.label('junk file') if case['junk'] else None
    return len(names) > 1
