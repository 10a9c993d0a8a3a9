"""Mutation runs: change one construct of a module, run the checks concerned, list what stays quiet.

usage: mutate.py [--modules a,b] [--checks ...] [--sample N] [--seed S] [--func NAME] [-j N] [--ops a,b]
Survivors are printed with the changed lines; they are either equivalent to the original or misses.
"""
import argparse
import ast
import concurrent.futures
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from refactor import BY_MODULE, MODULES, REPO, is_einsum, tuple_perm  # noqa: E402

PAIRS = [('noa', 'nob'), ('nva', 'nvb'), ('na', 'nb'), ('no', 'nv'), ('T1a', 'T1b'), ('T2aa', 'T2bb'), ('Ia', 'Ib'), ('Fa', 'Fb'),
         ('Faa', 'Fbb'), ('Ta', 'Tb'), ('Taa', 'Tbb'), ('ea', 'eb'), ('oa', 'ob'), ('va', 'vb'), ('iocc', 'ivir'), ('occ', 'vir'),
         ('astr', 'bstr'), ('refa', 'refb'), ('L1a', 'L1b'), ('L2aa', 'L2bb'), ('ha', 'hb'), ('i', 'j'), ('a', 'b'), ('p', 'q'),
         ('T1old', 'T2old'), ('eo', 'ev'), ('o1', 'o2'), ('v1', 'v2'), ('mo_occ', 'mo_vir'), ('anew', 'bnew'), ('ab', 'bb'),
         ('ka', 'kb'), ('o', 'v'), ('D1a', 'D1b')]
SWAP = {}
for _a, _b in PAIRS:
    SWAP[_a], SWAP[_b] = _b, _a


def mutants(src):
    """(op, lineno, start, end, text) replacements"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    out = []
    funcs = [f for f in ast.walk(tree) if isinstance(f, ast.FunctionDef)]
    owner = {}
    for f in funcs:
        for n in ast.walk(f):
            if hasattr(n, 'lineno'):
                owner[id(n)] = f.name

    def add(op, n, text, sp=None):
        s, e = sp or span(n)
        if b[s:e].decode() != text:
            out.append((op, owner.get(id(n), '?'), n.lineno, s, e, text))

    def between(x, y, pat, new, op, n):
        s, e = span(x)[1], span(y)[0]
        t = b[s:e].decode()
        m = re.search(pat, t)
        if m:
            add(op, n, t[:m.start()] + new + t[m.end():], (s, e))
    for n in ast.walk(tree):
        if is_einsum(n):
            st = n.args[0].value
            ins, o = st.split('->')
            parts = ins.split(',')
            q = b[span(n.args[0])[0]:span(n.args[0])[1]].decode()[0]
            for k, p in enumerate(parts + [o]):
                for x in range(len(p) - 1):
                    if p[x] != p[x + 1] and p[x].isalpha():
                        r = p[:x] + p[x + 1] + p[x] + p[x + 2:]
                        new = (parts + [o])[:]
                        new[k] = r
                        add('letters', n.args[0], q + ','.join(new[:-1]) + '->' + new[-1] + q)
        if isinstance(n, ast.AugAssign):
            if isinstance(n.op, ast.Add):
                between(n.target, n.value, r'\+=', '-=', 'sign', n)
            elif isinstance(n.op, ast.Sub):
                between(n.target, n.value, r'-=', '+=', 'sign', n)
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, ast.Add):
                between(n.left, n.right, r'\+', '-', 'sign', n)
            elif isinstance(n.op, ast.Sub):
                between(n.left, n.right, r'-', '+', 'sign', n)
            elif isinstance(n.op, ast.Mult):
                between(n.left, n.right, r'\*', '/', 'muldiv', n)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add('usub', n, b[span(n.operand)[0]:span(n.operand)[1]].decode())
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            if type(n.value) is int:
                add('const', n, str(n.value + 1))
                if n.value > 0:
                    add('const', n, str(n.value - 1))
            else:
                for x in {0.5: (0.25, 1.0), 0.25: (0.5,), 1.0: (2.0, 0.5), 2.0: (1.0,), 0.0: (1.0,)}.get(n.value, (n.value * 2,)):
                    add('const', n, repr(x))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add('bool', n, str(not n.value))
        if isinstance(n, (ast.Expr, ast.AugAssign)) and not isinstance(getattr(n, 'value', None), ast.Constant):
            add('delete', n, 'pass')
        if isinstance(n, ast.Continue):
            add('delete', n, 'pass')
        if isinstance(n, ast.Attribute) and re.fullmatch('[ov]{2,4}', n.attr) and isinstance(n.ctx, ast.Load):
            s, e = span(n)
            base = b[s:span(n.value)[1]].decode()
            for x in range(len(n.attr) - 1):
                if n.attr[x] != n.attr[x + 1]:
                    add('block', n, base + '.' + n.attr[:x] + n.attr[x + 1] + n.attr[x] + n.attr[x + 2:])
        t = tuple_perm(n)
        if t:
            for x in range(len(t) - 1):
                r = t[:]
                r[x], r[x + 1] = r[x + 1], r[x]
                s = span(n.func)[1]
                add('perm', n, '((%s))' % ', '.join(map(str, r)), (s, span(n)[1]))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in SWAP:
            add('name', n, SWAP[n.id])
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for cls, pat, new in ((ast.Lt, '<', '<='), (ast.LtE, '<=', '<'), (ast.Gt, '>', '>='), (ast.GtE, '>=', '>'),
                                  (ast.Eq, '==', '!='), (ast.NotEq, '!=', '=='), (ast.Is, 'is', 'is not'), (ast.IsNot, 'is not', 'is')):
                if isinstance(n.ops[0], cls):
                    between(n.left, n.comparators[0], re.escape(pat), new, 'compare', n)
        if isinstance(n, ast.BoolOp) and len(n.values) == 2:
            w = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            between(n.values[0], n.values[1], w[0], w[1], 'bool', n)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'conj', 'conjugate') and not n.args:
            add('uncall', n, b[span(n.func.value)[0]:span(n.func.value)[1]].decode())
        if isinstance(n, ast.Slice):
            s, e = span(n)
            if n.lower is None and n.upper is not None:
                u = b[span(n.upper)[0]:span(n.upper)[1]].decode()
                add('slice', n, u + ':', (s, e))
                add('slice', n, ':', (s, e))
            elif n.upper is None and n.lower is not None:
                add('slice', n, ':' + b[span(n.lower)[0]:span(n.lower)[1]].decode(), (s, e))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not is_einsum(n):
            for x in range(len(n.args) - 1):
                p, q = n.args[x], n.args[x + 1]
                sp, sq = span(p), span(q)
                add('args', n, b[sq[0]:sq[1]].decode() + b[sp[1]:sq[0]].decode() + b[sp[0]:sp[1]].decode(), (sp[0], sq[1]))
    res, seen = [], set()
    for m in out:
        if m[3:] in seen:
            continue
        seen.add(m[3:])
        res.append(m)
    return b, res


def run(mod, b, m, checks):
    op, fn, line, s, e, text = m
    new = b[:s] + text.encode() + b[e:]
    try:
        ast.parse(new)
    except SyntaxError:
        return 'syntax', ''
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        shutil.copytree(os.path.join(REPO, 'cqcpy'), os.path.join(d, 'cqcpy'), ignore=shutil.ignore_patterns('tests', '__pycache__'))
        with open(os.path.join(d, 'cqcpy', mod + '.py'), 'wb') as f:
            f.write(new)
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=os.path.join(d, 'ev'), VERIF_SEED='1', VERIF_TIER='quick')
        notes = []
        for c in checks:
            try:
                p = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), c], cwd=HERE, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                notes.append(c + ' timeout')
                continue
            if p.returncode == 1 and 'VIOLATION' in p.stdout:
                return 'caught', c
            if p.returncode:
                notes.append('%s exit %d' % (c, p.returncode))
            elif 'UNDECIDED' in p.stdout:
                u = [l for l in p.stdout.splitlines() if l.startswith('UNDECIDED')]
                if u and not all('ccsd_pt_simple' in x for x in u):
                    notes.append(c + ' undecided: ' + u[0][20:150])
        return ('undecided' if notes else 'survived'), '; '.join(notes)
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--modules')
    ap.add_argument('--checks')
    ap.add_argument('--ops')
    ap.add_argument('--func')
    ap.add_argument('--sample', type=int)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    count = {}
    for mod in (a.modules.split(',') if a.modules else MODULES):
        src = open(os.path.join(REPO, 'cqcpy', mod + '.py')).read()
        b, ms = mutants(src)
        if a.func:
            ms = [m for m in ms if m[1] in a.func.split(',')]
        if a.ops:
            ms = [m for m in ms if m[0] in a.ops.split(',')]
        total = len(ms)
        if a.sample and len(ms) > a.sample:
            ms = sorted(random.Random(a.seed).sample(ms, a.sample), key=lambda m: m[2])
        checks = a.checks.split(',') if a.checks else BY_MODULE[mod]
        print('%s: %d of %d mutants' % (mod, len(ms), total), flush=True)
        with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
            for m, (st, note) in zip(ms, ex.map(lambda m: run(mod, b, m, checks), ms)):
                count[mod, st] = count.get((mod, st), 0) + 1
                if st in ('survived', 'undecided'):
                    old = b[m[3]:m[4]].decode()
                    ls = b.rfind(b'\n', 0, m[3]) + 1
                    le = b.find(b'\n', m[4])
                    ctx = b[ls:m[3]].decode() + '[[' + old + ' => ' + m[5] + ']]' + b[m[4]:le].decode()
                    print('%s:%d %s %s %s | %s %s' % (mod, m[2], m[1], m[0], st, ' '.join(ctx.split())[:220], ('{%s}' % note) if note else ''), flush=True)
    for k in sorted(count):
        print(k, count[k])


if __name__ == '__main__':
    main()
