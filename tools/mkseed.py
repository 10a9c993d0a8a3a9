"""Helper to write a planted bug: mkseed.py ID PROPERTY FILE  (reads OLD/NEW/NEEDS/BREAKS/DEMO sections from stdin)

stdin:  sections introduced by lines '@@old', '@@new' (repeatable pairs), '@@needs', '@@breaks', '@@demo' (python body)
"""
import json
import os
import subprocess
import sys
import tempfile
import shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2
exec /opt/venv/bin/python -W ignore demo.py
'''


def main():
    sid, prop, fname = sys.argv[1:4]
    sec = []
    for line in sys.stdin.read().split('\n'):
        if line.startswith('@@'):
            sec.append([line[2:].strip(), []])
        elif sec:
            sec[-1][1].append(line)
    get = lambda k: ['\n'.join(b) for n, b in sec if n == k]
    src = open(os.path.join('/repo', fname)).read()
    new = src
    for a, b in zip(get('old'), get('new')):
        if new.count(a) != 1:
            sys.exit('%s: old text occurs %d times:\n%s' % (sid, new.count(a), a))
        new = new.replace(a, b)
    d = os.path.join(HERE, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    try:
        for side, text in (('a', src), ('b', new)):
            p = os.path.join(tmp, side, fname)
            os.makedirs(os.path.dirname(p))
            open(p, 'w').write(text)
        r = subprocess.run(['diff', '-u', 'a/' + fname, 'b/' + fname], cwd=tmp, capture_output=True, text=True)
        lines = r.stdout.split('\n')
        lines[0] = '--- a/' + fname
        lines[1] = '+++ b/' + fname
        open(os.path.join(d, 'patch.diff'), 'w').write('diff --git a/%s b/%s\n' % (fname, fname) + '\n'.join(lines))
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(get('demo')[0].strip('\n') + '\n')
    json.dump({'property': prop, 'needs': get('needs')[0].strip(), 'what_it_breaks': get('breaks')[0].strip()},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    subprocess.check_call(['git', '-C', '/repo', 'apply', '--check', os.path.join(d, 'patch.diff')])


main()
