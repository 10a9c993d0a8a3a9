"""Try planted bugs in scratch copies, several at a time:  try_seeds.py [-j N] [--no-tests] [--all-checks] [ID...]

For every planted bug: copy the package to a scratch directory, apply the patch, run the demo before and after, run the
stable tests on the copy, run the check of its property (or all checks) on the copy; print one line.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(HERE, 'seeded')
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def one(i, tests, allchecks):
    d = os.path.join(SD, i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='try-')
    msg = []
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        env = dict(os.environ, PYTHONPATH='%s:/opt/vp/plugins' % repo, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        demo = lambda: sh(['bash', os.path.join(d, 'demo.sh')], cwd=repo, env=env)
        a = demo().returncode
        r = sh(['patch', '-p1', '-i', os.path.join(d, 'patch.diff')], cwd=repo)
        if r.returncode:
            return i, meta, 'DOES NOT APPLY ' + r.stdout
        b = demo()
        msg.append('demo %d->%d%s' % (a, b.returncode, '' if a == 0 and b.returncode else '   *** DEMO'))
        if a:
            msg.append(b.stderr[-300:])
        if tests:
            sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'vp_seed', '--timeout=700', '-W', 'ignore',
                '-o', 'junit_family=xunit2', '--junitxml=' + tmp + '/j.xml', 'cqcpy/tests'], cwd=repo, env=env)
            ok = set()
            for c in ET.parse(tmp + '/j.xml').iter('testcase'):
                if not len([x for x in c if x.tag in ('failure', 'error', 'skipped')]):
                    ok.add('%s::%s' % (c.get('classname'), c.get('name')))
            bad = sorted(STABLE - ok)
            msg.append('tests ' + ('pass' if not bad else '*** FAIL ' + ', '.join(x.split('.')[-1] for x in bad)))
        checks = ['C%02d' % k for k in range(1, 38) if k not in (35, 36)] if allchecks else [meta['property']]
        env = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=tmp, VERIF_SEED='1', VERIF_TIER='quick')
        hits = []
        for c in checks:
            k = sh(['python3', 'check.py', c], cwd=HERE, env=env)
            hit = k.returncode == 1 and 'VIOLATION property=%s ' % c in k.stdout
            if hit:
                hits.append(c)
            elif k.returncode not in (0, 1):
                msg.append('%s exit %d' % (c, k.returncode))
            if c == meta['property']:
                msg.append('CAUGHT' if hit else 'MISSED ' + k.stdout[-400:])
        if allchecks:
            msg.append('by ' + ' '.join(hits))
    finally:
        shutil.rmtree(tmp)
    return i, meta, '; '.join(msg)


def main():
    args = sys.argv[1:]
    j = 6
    if '-j' in args:
        k = args.index('-j')
        j = int(args[k + 1])
        del args[k:k + 2]
    ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(SD))
    with ThreadPoolExecutor(j) as ex:
        for i, meta, m in ex.map(lambda i: one(i, '--no-tests' not in args, '--all-checks' in args), ids):
            print(i, meta['property'], m, flush=True)


main()
