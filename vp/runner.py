"""Runs one check: shards of generated cases, evidence, replay files."""
import contextlib
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import signal
import sys
import time
import traceback
import warnings

from .gen import rich, random_schema
from .search import search
from . import device as vdevice

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT_S = 60
SRC = os.path.join(os.environ.get('VP_REPO_SRC', '/repo/src'), 'ncdiff')


class Violation(Exception):
    """the property does not hold for this case"""


class HarnessError(Exception):
    pass


@contextlib.contextmanager
def sut(what):
    """Code under test on an input it has to accept: an exception is a
    violation, not an error of the check."""
    try:
        yield
    except (Violation, HarnessError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                            for f in reversed(tb[-3:]))
        raise Violation('%s raised %s: %s [%s]' % (
            what, type(e).__name__, str(e)[:300], where)) from e


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


# -- schema / device pool -------------------------------------------------------

_schemas = {}
_devices = {}


def schema(name):
    s = _schemas.get(name)
    if s is None:
        if name.split(':')[0] == 'rich':
            s = rich()
            if ':' in name:
                s.spelling = int(name.split(':')[1])
        elif name.startswith('rand'):
            head, seed = name.split(':')
            opts = head[4:]
            s = random_schema(int(seed), status='s' in opts,
                              readonly='r' in opts, user='u' not in opts,
                              iid='i' not in opts)
            if int(seed) % 2:
                s.spelling = int(seed)
        else:
            raise ValueError(name)
        s.name = name
        _schemas[name] = s
    return s


def device(name):
    """shared device for a schema; the folder lives as long as the process"""
    d = _devices.get(name)
    if d is None:
        with sut('loading the models of schema %s' % name):
            d = vdevice.make_device(schema(name))
        _devices[name] = d
    return d


def pool(seed, shard, n, opts='', rich_share=2):
    """schema names this shard works on"""
    out = ['rich'] * rich_share
    if rich_share > 1:
        out[-1] = 'rich:%d' % (seed * 1000 + shard)
    for i in range(n):
        out.append('rand%s:%d' % (opts, (seed * 1000 + shard) * 100 + i))
    return out


# -- search ---------------------------------------------------------------------------

class Ctx:
    def __init__(self, prop, tier, seed, shard, nshards):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.shard = shard
        self.nshards = nshards
        self.labels = {}

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1


class Hang(Violation):
    pass


def _alarm(signum, frame):
    raise Hang('the operation did not end within %d s' % CASE_LIMIT_S)


def run_case(mod, ctx, case):
    """returns True when the case is non-trivial"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        return mod.check(ctx, case)
    finally:
        signal.alarm(0)


def shard_main(prop, tier, seed, shard, nshards, n):
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module('checks.' + prop)
    ctx = Ctx(prop, tier, seed, shard, nshards)
    res = {'shard': shard, 'evaluations': 0, 'nontrivial': [], 'samples': [],
           'violation': None, 'error': None}
    hashes = set()
    state = {'fail': None, 'msg': None}

    def one(case):
        res['evaluations'] += 1
        try:
            interesting = run_case(mod, ctx, case)
        except Violation as e:
            state['fail'] = case
            state['msg'] = str(e)
            raise
        except Exception as e:
            # raised by the code under test on an input it has to accept;
            # anything else is an error of the check
            tb = traceback.extract_tb(e.__traceback__)
            if not tb or not tb[-1].filename.startswith(SRC):
                raise
            state['fail'] = case
            state['msg'] = '%s raised at %s:%d: %s' % (
                type(e).__name__, os.path.basename(tb[-1].filename),
                tb[-1].lineno, str(e)[:300])
            raise Violation(state['msg']) from e
        if interesting:
            h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()
                             ).hexdigest()[:16]
            if h not in hashes:
                hashes.add(h)
                if len(res['samples']) < 3 and len(json.dumps(case)) < 6000:
                    res['samples'].append(case)

    try:
        if hasattr(mod, 'fixed_cases'):
            for i, case in enumerate(mod.fixed_cases(ctx)):
                if i % nshards == shard:
                    one(case)
        found = search(mod.generator(ctx), one, n, seed * 7919 + shard,
                       lambda e: isinstance(e, Violation)) if n else None
        if found:
            res['violation'] = {'case': found[0], 'message': found[1]}
    except Violation as e:
        # a fixed case
        res['violation'] = {'case': state['fail'], 'message': state['msg']}
    except BaseException:
        res['error'] = traceback.format_exc()
    res['nontrivial'] = sorted(hashes)
    res['labels'] = ctx.labels
    vdevice.cleanup()
    return res


def _worker(args):
    return shard_main(*args)


def write_replay(prop, seed, shard, v):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = json.dumps({'property': prop, 'message': v['message'],
                       'case': v['case']}, indent=1, sort_keys=True)
    p = os.path.join(d, '%s-%s.json' % (
        prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(p, 'w') as f:
        f.write(body)
    return p


def known_findings(prop, mod, tier, seed):
    """run the listed cases; each is one specific input that fails"""
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        listed = json.load(f)['findings']
    n = 0
    for k in listed:
        if k['property'] != prop:
            continue
        try:
            run_case(mod, Ctx(prop, tier, seed, 0, 1), k['case'])
        except Violation:
            n += 1
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']),
                  flush=True)
        vdevice.cleanup()
        _devices.clear()
    return n


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default='quick',
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--shards', type=int, default=0)
    ap.add_argument('-n', type=int, default=None)
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module('checks.' + a.prop)
    if a.replay:
        with open(a.replay) as f:
            case = json.load(f)['case']
        ctx = Ctx(a.prop, a.tier, seed, 0, 1)
        try:
            run_case(mod, ctx, case)
        except Violation as e:
            print(str(e))
            print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
            return 1
        print('replay: property holds for this case')
        return 0
    t0 = time.time()
    known = known_findings(a.prop, mod, a.tier, seed)
    nshards = a.shards or getattr(mod, 'SHARDS', 8)
    n = a.n if a.n is not None else mod.CASES[a.tier]
    jobs = [(a.prop, a.tier, seed, i, nshards, n) for i in range(nshards)]
    ctxm = multiprocessing.get_context('fork')
    if nshards == 1:
        results = [shard_main(*jobs[0])]
    else:
        with ctxm.Pool(min(nshards, 8), maxtasksperchild=1) as p:
            results = p.map(_worker, jobs, chunksize=1)
    errors = [r for r in results if r['error']]
    violations = [r for r in results if r['violation']]
    nontrivial = set()
    labels = {}
    samples = []
    for r in results:
        nontrivial.update(r['nontrivial'])
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        samples += r['samples']
    evals = sum(r['evaluations'] for r in results)
    wall = round(time.time() - t0, 1)
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(nontrivial),
            'rule': mod.RULE,
            'samples': samples[:5],
            'labels': dict(sorted(labels.items())),
            'known_findings_confirmed': known,
        },
        'wall_s': wall,
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for r in violations:
        v = r['violation']
        p = write_replay(a.prop, seed, r['shard'], v)
        print('shard %d: %s' % (r['shard'], v['message']))
        print('VIOLATION property=%s replay=%s' % (a.prop, p))
    if violations:
        return 1
    if errors:
        for r in errors[:2]:
            sys.stderr.write(r['error'] + '\n')
        return 3
    print('%s %s: held on %d cases (%d distinct non-trivial), %.1f s; %s' % (
        a.prop, a.tier, evals, len(nontrivial), wall,
        ', '.join('%s=%d' % kv for kv in sorted(labels.items()))))
    return 0
