"""C14: no function writes to its arguments or to module state; results own their memory."""
import ast
import os

from .framework import REPO


def public_functions():
    """qualified names of the public functions and methods defined in the package"""
    out = []
    root = os.path.join(REPO, 'cqcpy')
    for fn in sorted(os.listdir(root)):
        if not fn.endswith('.py') or fn.startswith('__'):
            continue
        with open(os.path.join(root, fn)) as f:
            tree = ast.parse(f.read(), fn)
        mod = 'cqcpy.' + fn[:-3]
        for st in tree.body:
            if isinstance(st, ast.FunctionDef) and only_raises(st):
                continue
            if isinstance(st, ast.FunctionDef) and not st.name.startswith('_'):
                out.append('%s.%s' % (mod, st.name))
            elif isinstance(st, ast.ClassDef) and not st.name.startswith('_'):
                for m in st.body:
                    if isinstance(m, ast.FunctionDef) and (not m.name.startswith('_') or m.name == '__init__'):
                        out.append('%s.%s.%s' % (mod, st.name, m.name))
    return out


def only_raises(node):
    body = [st for st in node.body if not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant))]
    return bool(body) and isinstance(body[0], ast.Raise)


def c14(s):
    from . import registry
    s.mode = 'purity'
    drivers = []
    for prop, (fn, meta) in sorted(registry.CHECKS.items()):
        if prop not in ('C14', 'C34', 'C37'):
            drivers.append(fn)
    for fn in drivers:
        before = len(s.obligations)
        fn(s)
        # the same call analysed for another property adds nothing
        seen = {}
        for o in s.obligations[:before]:
            seen[o[0]] = o[1]
        s.obligations[before:] = [o for o in s.obligations[before:] if seen.get(o[0]) != 'ok' or o[1] != 'ok']
    pub = public_functions()
    missed = [q for q in pub if q not in s.functions]
    s.bump('public_functions', len(pub))
    s.bump('public_functions_analysed', len(pub) - len(missed))
    for q in missed:
        s.oblige(q, 'undecided', 'not reached by any driver')
