"""Confirm planted changes: python3 tools/plant.py [--tests] ID ...

For each /verif/seeded/ID: the patch applies to a scratch copy of /repo's
HEAD, (with --tests) the stable tests pass there, demo.sh exits 0 without and
non-zero with it, and the quick check of its property reports it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, env=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})},
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def main(argv):
    tests = '--tests' in argv
    nocheck = '--nocheck' in argv
    ids = [a for a in argv if not a.startswith('--')] or \
        sorted(os.listdir(os.path.join(HERE, 'seeded')))
    stable = json.load(open('/opt/vp/BASELINE.json'))
    for i in ids:
        d = os.path.join(HERE, 'seeded', i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        tmp = tempfile.mkdtemp(prefix='plant-')
        try:
            repo = os.path.join(tmp, 'repo')
            demo = os.path.join(tmp, 'demo')
            shutil.copytree('/repo', repo, symlinks=True)
            shutil.copytree(d, demo)
            for f in ('patch.diff', 'meta.json'):
                os.unlink(os.path.join(demo, f))
            out = [i, meta['property']]
            rc0, o0 = sh(['bash', demo + '/demo.sh'], cwd=repo)
            rc, o = sh(['git', 'apply', d + '/patch.diff'], cwd=repo)
            if rc:
                print(i, 'DOES NOT APPLY', o)
                continue
            rc1, o1 = sh(['bash', demo + '/demo.sh'], cwd=repo)
            out.append('demo %s/%s%s' % (
                rc0, rc1, '' if rc0 == 0 and rc1 else ' BAD\n%s\n%s' % (
                    o0[-1500:], o1[-1500:])))
            if tests:
                rc, o = sh([PY, '-m', 'pytest', '-q', '-x', '-p',
                            'no:cacheprovider', 'src/ncdiff/tests'],
                           cwd=repo, env={'PYTHONPATH': repo + '/src'})
                out.append('tests ' + o.strip().splitlines()[-1]
                           if rc else 'tests ok')
            if not nocheck:
                rc, o = sh([PY, HERE + '/run.py', meta['property'], 'quick'],
                           cwd=HERE, env={'VP_REPO_SRC': repo + '/src'})
                got = [x for x in o.splitlines() if 'VIOLATION' in x]
                out.append('CAUGHT' if rc == 1 and got else
                           'MISSED rc=%d' % rc)
            print(' | '.join(out), flush=True)
        finally:
            shutil.rmtree(tmp)


main(sys.argv[1:])
