"""Run the checks on edited scratch copies of the repository: python3 tools/selftest.py [-v] [PATTERN...]

Every case of selftest/*.py is a tuple (checks, kind, file, edits): kind 'bug' is an edit that breaks the property (exit 1
expected), kind 'same' one that keeps the behaviour (exit 0 expected; undecided obligations are reported)."""
import glob
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def load():
    out = []
    for p in sorted(glob.glob(os.path.join(HERE, 'selftest', '*.py'))):
        spec = importlib.util.spec_from_file_location('cases', p)
        m = importlib.util.module_from_spec(spec)
        sys.dont_write_bytecode = True
        spec.loader.exec_module(m)
        for n, (checks, kind, f, edits) in enumerate(m.CASES):
            out.append(('%s:%d' % (os.path.basename(p)[:-3], n), checks.split(), kind, f, edits))
    return out


def edit(s, edits):
    if isinstance(edits[0], str):
        edits = [edits]
    for e in edits:
        old, new = e[:2]
        k = e[2] if len(e) > 2 else 0
        parts = s.split(old)
        if len(parts) < k + 2:
            return None
        s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
    return s


def run(case):
    name, checks, kind, f, edits = case
    root = tempfile.mkdtemp(prefix='selftest-')
    out = []
    try:
        shutil.copytree(os.path.join(REPO, 'cqcpy'), os.path.join(root, 'cqcpy'), ignore=shutil.ignore_patterns('__pycache__'))
        p = os.path.join(root, 'cqcpy', f)
        s = edit(open(p).read(), edits)
        if s is None:
            return [(name, '-', kind, 'NOT FOUND', '')]
        open(p, 'w').write(s)
        for c in checks:
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), c], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=root, VERIF_EVIDENCE=os.path.join(root, 'evidence')))
            und = [l for l in r.stdout.splitlines() if l.startswith('UNDECIDED')]
            vio = [l for l in r.stdout.splitlines() if ' in ' in l and '[' in l and not l.startswith('UNDECIDED')]
            if kind == 'bug':
                res = 'ok' if r.returncode == 1 else 'MISSED' + (' (exit %d)' % r.returncode if r.returncode else '') + \
                    (' undecided' if und else '')
            else:
                res = 'FALSE ALARM' if r.returncode == 1 else 'NO ANSWER' if r.returncode else 'undecided' if und else 'ok'
            txt = (vio or [''])[0][-200:] if kind == 'bug' and r.returncode == 1 else ' // '.join((vio + und)[:2])[:300]
            if r.returncode not in (0, 1):
                txt += r.stdout[-200:] + r.stderr[-200:]
            out.append((name, c, kind, res, txt))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return out


def main():
    args = [a for a in sys.argv[1:] if a != '-v']
    verbose = '-v' in sys.argv
    cases = [c for c in load() if not args or any(a == c[0] or a == c[0].split(':')[0] or a in c[1] for a in args)]
    tally = {}
    with ThreadPoolExecutor(7) as ex:
        for case, res in zip(cases, ex.map(run, cases)):
            for name, c, kind, r, txt in res:
                tally[(kind, r.split()[0])] = tally.get((kind, r.split()[0]), 0) + 1
                if verbose or r != 'ok':
                    e = case[4] if isinstance(case[4][0], str) else case[4][0]
                    print('%-14s %s %-4s %-12s %r | %s' % (name, c, kind, r, e[1].strip()[:60], txt))
    print(tally)


if __name__ == '__main__':
    main()
