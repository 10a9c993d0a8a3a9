"""Confirm planted bugs: apply each to /repo, build, demo, (tests), checks; revert.  confirm_seeds.py [--tests] [ID...]"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(HERE, 'seeded')


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def main():
    tests = '--tests' in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(SD))
    assert not sh(['git', '-C', '/repo', 'status', '--porcelain']).stdout.strip()
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    man = {c['property']: c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}
    for i in ids:
        d = os.path.join(SD, i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        demo = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo').returncode
        r = sh(['git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff')])
        msg = ['clean-demo=%d' % demo]
        try:
            if r.returncode:
                msg.append('DOES NOT APPLY ' + r.stderr)
                continue
            b = sh(['bash', '/opt/vp/build.sh'])
            msg.append('build=%d' % b.returncode)
            msg.append('demo=%d' % sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo').returncode)
            c = man.get(meta['property'])
            if c:
                k = sh(c['quick_cmd'], shell=True, cwd=HERE)
                hit = 'VIOLATION property=%s' % meta['property'] in k.stdout
                msg.append('check=%d %s' % (k.returncode, 'CAUGHT' if hit and k.returncode == 1 else 'MISSED'))
                if not hit:
                    msg.append(k.stdout[-600:])
            if tests:
                sh(['bash', '/opt/vp/test.sh', '/tmp/seedtest.json'])
                res = json.load(open('/tmp/seedtest.json'))
                txt = json.dumps(res)
                passed = set(res.get('passed', [])) if isinstance(res.get('passed'), list) else None
                if passed is None:
                    t = res.get('tests', res)
                    passed = {k for k, v in t.items() if (v if isinstance(v, str) else v.get('outcome', '')) in
                              ('passed', 'pass', 'ok')}
                bad = [x for x in stable if x not in passed]
                msg.append('tests-failing=%s' % bad)
        finally:
            sh(['git', '-C', '/repo', 'checkout', '--', '.'])
            print(i, meta['property'], '; '.join(msg), flush=True)


main()
