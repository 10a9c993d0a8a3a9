"""Apply behaviour-preserving rewrites to whole modules and run the checks on the result.

usage: refactor.py [-v] [--rewrites a,b] [--modules x,y] [--checks C01,...]
Every check must stay quiet (exit 0) and leave nothing undecided.
"""
import argparse
import ast
import builtins
import concurrent.futures
import copy
import itertools
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MODULES = ['cc_energy', 'cc_equations', 'ci_utils', 'ft_utils', 'integrals', 'ov_blocks', 'spin_utils', 'test_utils',
           'utils']
ALG = ['C%02d' % i for i in range(1, 14)] + ['C37']
CI = ['C24', 'C25', 'C26', 'C27', 'C28', 'C29', 'C33']
BY_MODULE = {
    'cc_energy': ['C12'], 'cc_equations': ALG, 'ci_utils': CI, 'ft_utils': ['C30', 'C31', 'C32'],
    'integrals': ['C20', 'C21', 'C22', 'C23'], 'ov_blocks': ['C16', 'C17', 'C19', 'C21', 'C23'],
    'spin_utils': ['C15', 'C16', 'C34'], 'test_utils': ['C19'], 'utils': ['C18', 'C20'],
}


def is_einsum(n):
    return isinstance(n, ast.Call) and (getattr(n.func, 'attr', None) == 'einsum' or getattr(n.func, 'id', None) == 'einsum') \
        and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str) and '->' in n.args[0].value


def locals_of(f):
    names = set()
    nested = [x for x in ast.walk(f) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not f]
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
    glob = {x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    args = {a.arg for a in f.args.args + f.args.kwonlyargs}
    imported = {a.asname or a.name for n in ast.walk(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    return names - glob - args - imported if not nested else set()


class Rename(ast.NodeTransformer):
    """local variables get other names"""
    def visit_FunctionDef(self, f):
        m = {x: x + '_r' for x in locals_of(f)}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in m:
                n.id = m[n.id]
        return f


class EinsumOrder(ast.NodeTransformer):
    """operands of contractions in reverse order"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if is_einsum(n):
            ins, out = n.args[0].value.split('->')
            parts = ins.split(',')
            if len(parts) == len(n.args) - 1:
                n.args = [ast.Constant(','.join(parts[::-1]) + '->' + out)] + n.args[1:][::-1]
        return n


class EinsumLetters(ast.NodeTransformer):
    """contraction labels renamed"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if is_einsum(n):
            s = n.args[0].value
            letters = sorted({c for c in s if c.isalpha()})
            new = dict(zip(letters, 'pqrstuvwxyzABCDEF'))
            n.args[0] = ast.Constant(''.join(new.get(c, c) for c in s))
        return n


class AugAssign(ast.NodeTransformer):
    """x += e becomes x = x + e for local names and elements"""
    def visit_FunctionDef(self, f):
        loc = locals_of(f)
        outer = self

        class V(ast.NodeTransformer):
            def visit_AugAssign(self, n):
                if isinstance(n.target, ast.Name) and n.target.id in loc:
                    t = ast.Name(n.target.id, ast.Load())
                    return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
                if isinstance(n.target, ast.Subscript):
                    t = copy.deepcopy(n.target)
                    t.ctx = ast.Load()
                    return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
                return n
        return V().visit(f)


class Sum(ast.NodeTransformer):
    """x += e becomes x = e + x for names the function has assigned"""
    def visit_FunctionDef(self, f):
        own = {t.id for n in ast.walk(f) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}

        class V(ast.NodeTransformer):
            def visit_AugAssign(self, n):
                if isinstance(n.target, ast.Name) and isinstance(n.op, ast.Add) and n.target.id in own:
                    return ast.Assign([n.target], ast.BinOp(n.value, n.op, ast.Name(n.target.id, ast.Load())))
                return n
        return V().visit(f)


class Negate(ast.NodeTransformer):
    """x -= e becomes x += -e"""
    def visit_AugAssign(self, n):
        if isinstance(n.op, ast.Sub):
            n.op = ast.Add()
            n.value = ast.UnaryOp(ast.USub(), n.value)
        return n


class Commute(ast.NodeTransformer):
    """operands of + and of * with a constant exchanged"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        listy = any(isinstance(x, (ast.List, ast.Tuple, ast.ListComp, ast.JoinedStr)) or
                    (isinstance(x, ast.Constant) and isinstance(x.value, str)) for x in ast.walk(n))
        if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.Constant) and not listy:
            n.left, n.right = n.right, n.left
        elif isinstance(n.op, ast.Add) and not listy and any(is_einsum(x) or (isinstance(x, ast.Constant) and isinstance(x.value, (int, float))) for x in ast.walk(n)):
            n.left, n.right = n.right, n.left
        return n


class SwapIf(ast.NodeTransformer):
    """if c: A else: B becomes if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n


class ElseAfterReturn(ast.NodeTransformer):
    """statements after an if that leaves go to its else branch"""
    def block(self, body):
        for k, st in enumerate(body):
            if isinstance(st, ast.If) and not st.orelse and k + 1 < len(body) \
                    and isinstance(st.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                st.orelse = self.block(body[k + 1:])
                return body[:k + 1]
        return body

    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.FunctionDef, ast.For, ast.If)):
            n.body = self.block(n.body)
        return n


class FlattenElse(ast.NodeTransformer):
    """else after return is flattened"""
    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.FunctionDef, ast.For)):
            out = []
            for st in n.body:
                out.append(st)
                while isinstance(out[-1], ast.If) and out[-1].orelse and isinstance(out[-1].body[-1], (ast.Return, ast.Raise, ast.Continue)):
                    rest = out[-1].orelse
                    out[-1].orelse = []
                    out.extend(rest)
            n.body = out
        return n


class Enumerate(ast.NodeTransformer):
    """enumerate loops over names use positions"""
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and getattr(it.func, 'id', '') == 'enumerate' and isinstance(it.args[0], ast.Name) \
                and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
            i, x = n.target.elts
            get = ast.Assign([x], ast.Subscript(it.args[0], ast.Name(i.id, ast.Load()), ast.Load()))
            return ast.For(i, ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [it.args[0]], [])], []),
                           [get] + n.body, n.orelse)
        return n


class EnumerateBack(ast.NodeTransformer):
    """for x in L becomes for _k, x in enumerate(L)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Name) and isinstance(n.target, ast.Name):
            return ast.For(ast.Tuple([ast.Name('_k' + n.target.id, ast.Store()), n.target], ast.Store()),
                           ast.Call(ast.Name('enumerate', ast.Load()), [n.iter], []), n.body, n.orelse)
        return n


class Continue(ast.NodeTransformer):
    """if c: continue; rest becomes if not c: rest"""
    def visit_For(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n

    def block(self, body):
        for k, st in enumerate(body):
            if isinstance(st, ast.If) and not st.orelse and len(st.body) == 1 and isinstance(st.body[0], ast.Continue) and k + 1 < len(body):
                return body[:k] + [ast.If(ast.UnaryOp(ast.Not(), st.test), self.block(body[k + 1:]), [])]
        return body


class Flip(ast.NodeTransformer):
    """a < b becomes b > a"""
    F = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.F:
            return ast.Compare(n.comparators[0], [self.F[type(n.ops[0])]()], [n.left])
        return n


class Comprehension(ast.NodeTransformer):
    """x = [e for t in L if c] becomes an append loop"""
    def visit_Assign(self, n):
        v = n.value
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(v, ast.ListComp) and len(v.generators) == 1:
            g = v.generators[0]
            name = n.targets[0].id
            reads = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}
            if name in reads:
                return n
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), 'append', ast.Load()), [v.elt], []))]
            for c in g.ifs[::-1]:
                body = [ast.If(c, body, [])]
            loopvars = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}

            class R(ast.NodeTransformer):
                def visit_Name(self, m):
                    if m.id in loopvars:
                        m.id = '_c' + m.id
                    return m
            body = [R().visit(b) for b in body]
            return [ast.Assign([n.targets[0]], ast.List([], ast.Load())), ast.For(R().visit(g.target), g.iter, body, [])]
        return n


class Temps(ast.NodeTransformer):
    """every contraction inside a larger expression gets its own name first"""
    def __init__(self):
        self.n = 0

    def visit_stmt(self, st):
        pre = []
        outer = self

        class V(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if is_einsum(n):
                    outer.n += 1
                    name = '_t%d' % outer.n
                    pre.append(ast.Assign([ast.Name(name, ast.Store())], n))
                    return ast.Name(name, ast.Load())
                return n

            def visit_Lambda(self, n):
                return n

            def visit_ListComp(self, n):
                return n
        st = V().visit(st)
        return pre + [st]

    def visit_Assign(self, n):
        return self.visit_stmt(n)

    def visit_AugAssign(self, n):
        return self.visit_stmt(n)

    def visit_Return(self, n):
        return self.visit_stmt(n) if n.value else n


class Helper(ast.NodeTransformer):
    """contractions are done by a helper function at the end of the module"""
    def visit_Module(self, m):
        uses = [False]

        class V(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if is_einsum(n):
                    uses[0] = True
                    return ast.Call(ast.Name('_contract', ast.Load()), n.args, n.keywords)
                return n
        m = V().visit(m)
        if uses[0]:
            imp = 'from numpy import einsum as _einsum\n'
            m.body += ast.parse(imp + 'def _contract(spec, *ops, **kw):\n    return _einsum(spec, *ops, **kw)\n').body
        return m


class Split(ast.NodeTransformer):
    """the second half of a function that ends in a return is moved to a helper"""
    def visit_Module(self, m):
        out = []
        for st in m.body:
            if isinstance(st, ast.FunctionDef):
                h = self.split(st)
                if h is not None:
                    out.append(h)
            out.append(st)
        m.body = out
        return m

    def split(self, f):
        if len(f.body) < 4 or not isinstance(f.body[-1], ast.Return) or f.args.vararg or f.args.kwarg:
            return None
        k = len(f.body) // 2
        tail = f.body[k:]
        head = f.body[:k]
        if any(isinstance(x, (ast.Import, ast.ImportFrom, ast.FunctionDef)) for b in head for x in ast.walk(b)):
            return None

        def definite(stmts):
            s = set()
            for b in stmts:
                if isinstance(b, ast.Assign):
                    for t in b.targets:
                        s |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                elif isinstance(b, ast.If):
                    alts = []
                    for br in (b.body, b.orelse):
                        if br and isinstance(br[-1], (ast.Raise, ast.Return)):
                            continue
                        alts.append(definite(br))
                    if alts:
                        s |= set.intersection(*alts)
            return s
        known = definite(head)
        anyname = {x.id for b in head for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        args = [a.arg for a in f.args.args]
        reads = {x.id for b in tail for x in ast.walk(b) if isinstance(x, ast.Name)}
        if (reads & (anyname - known - set(args))):
            return None
        pass_ = [a for a in args if a in reads] + sorted(x for x in reads & known if x not in args)
        name = '_%s_tail' % f.name.strip('_')
        h = ast.FunctionDef(name, ast.arguments([], [ast.arg(a) for a in pass_], None, [], [], None, []), tail, [], None)
        f.body = head + [ast.Return(ast.Call(ast.Name(name, ast.Load()), [ast.Name(a, ast.Load()) for a in pass_], []))]
        return h


class Wrapper(ast.NodeTransformer):
    """public functions call a private implementation"""
    def visit_Module(self, m):
        out = []
        for st in m.body:
            if isinstance(st, ast.FunctionDef) and not st.args.vararg and not st.args.kwarg:
                impl = copy.deepcopy(st)
                impl.name = '_%s_impl' % st.name.strip('_')
                impl.args.defaults = []
                st.body = [ast.Return(ast.Call(ast.Name(impl.name, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in st.args.args], []))]
                out.append(impl)
            out.append(st)
        m.body = out
        return m


class Keywords(ast.NodeTransformer):
    """calls of functions of the same module pass their arguments by name"""
    def visit_Module(self, m):
        sig = {f.name: [a.arg for a in f.args.args] for f in m.body if isinstance(f, ast.FunctionDef)}

        class V(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if isinstance(n.func, ast.Name) and n.func.id in sig and not any(isinstance(a, ast.Starred) for a in n.args):
                    names = sig[n.func.id]
                    n.keywords = [ast.keyword(k, a) for k, a in zip(names, n.args)] + n.keywords
                    n.args = []
                return n
        return V().visit(m)


class Fractions(ast.NodeTransformer):
    """0.5 and 0.25 are written as quotients"""
    def visit_Constant(self, n):
        if isinstance(n.value, float) and n.value in (0.5, 0.25):
            return ast.BinOp(ast.Constant(1.0), ast.Div(), ast.Constant(1 / n.value))
        return n


def tuple_perm(n):
    t = None
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'transpose' and n.args:
        a = n.args[0] if len(n.args) == 1 else ast.Tuple(n.args)
        if isinstance(a, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Constant) for e in a.elts):
            t = [e.value for e in a.elts]
    return t


class TransFn(ast.NodeTransformer):
    """x.transpose(p) becomes numpy.transpose(x, p)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        t = tuple_perm(n)
        if t and not (isinstance(n.func.value, ast.Name) and n.func.value.id == 'numpy'):
            return ast.Call(ast.Attribute(ast.Name('numpy', ast.Load()), 'transpose', ast.Load()),
                            [n.func.value, ast.Tuple([ast.Constant(x) for x in t], ast.Load())], [])
        return n


class TransEin(ast.NodeTransformer):
    """x.transpose(p) becomes a one-operand einsum"""
    def visit_Call(self, n):
        self.generic_visit(n)
        t = tuple_perm(n)
        if t and not (isinstance(n.func.value, ast.Name) and n.func.value.id == 'numpy'):
            L = 'pqrstuvw'[:len(t)]
            return ast.Call(ast.Attribute(ast.Name('numpy', ast.Load()), 'einsum', ast.Load()),
                            [ast.Constant(L + '->' + ''.join(L[x] for x in t)), n.func.value], [])
        return n


class TransSwap(ast.NodeTransformer):
    """transpositions become swapaxes, other permutations moveaxis-free argument lists"""
    def visit_Call(self, n):
        self.generic_visit(n)
        t = tuple_perm(n)
        if t and not (isinstance(n.func.value, ast.Name) and n.func.value.id == 'numpy'):
            d = [i for i, x in enumerate(t) if i != x]
            if len(d) == 2:
                return ast.Call(ast.Attribute(n.func.value, 'swapaxes', ast.Load()), [ast.Constant(d[0]), ast.Constant(d[1])], [])
            return ast.Call(n.func, [ast.Constant(x) for x in t], [])
        return n


class TensorDot(ast.NodeTransformer):
    """two-operand contractions become tensordot and a transpose"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if is_einsum(n) and len(n.args) == 3 and not n.keywords:
            ins, out = n.args[0].value.split('->')
            a, b = ins.split(',')
            if len(set(a)) != len(a) or len(set(b)) != len(b):
                return n
            shared = [c for c in a if c in b]
            if not shared or any(c in out for c in shared) or set(out) != set(a) ^ set(b):
                return n
            res = [c for c in a if c not in shared] + [c for c in b if c not in shared]
            ax = ast.Tuple([ast.Tuple([ast.Constant(a.index(c)) for c in shared], ast.Load()),
                            ast.Tuple([ast.Constant(b.index(c)) for c in shared], ast.Load())], ast.Load())
            e = ast.Call(ast.Attribute(ast.Name('numpy', ast.Load()), 'tensordot', ast.Load()), n.args[1:], [ast.keyword('axes', ax)])
            p = [res.index(c) for c in out]
            if p != list(range(len(p))):
                e = ast.Call(ast.Attribute(e, 'transpose', ast.Load()), [ast.Constant(x) for x in p], [])
            return e
        return n


class Optimize(ast.NodeTransformer):
    """contractions are called with optimize=True"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if is_einsum(n) and not any(k.arg == 'optimize' for k in n.keywords):
            n.keywords.append(ast.keyword('optimize', ast.Constant(True)))
        return n


class NumpyAlias(ast.NodeTransformer):
    """import numpy as np"""
    def visit_Import(self, n):
        for a in n.names:
            if a.name == 'numpy' and a.asname is None:
                a.asname = 'np'
        return n

    def visit_Name(self, n):
        if n.id == 'numpy':
            n.id = 'np'
        return n


class Docs(ast.NodeTransformer):
    """docstrings, annotations, pass, assertions that hold"""
    def visit_FunctionDef(self, f):
        f.body = [ast.Expr(ast.Constant('Text.')), ast.Pass()] + f.body
        return f


class Reorder(ast.NodeTransformer):
    """runs of accumulations into one local name are reversed when independent"""
    def visit_FunctionDef(self, f):
        def ok(st, name):
            return isinstance(st, ast.AugAssign) and isinstance(st.op, (ast.Add, ast.Sub)) and isinstance(st.target, ast.Name) and st.target.id == name \
                and not any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(st.value))
        out, k = [], 0
        while k < len(f.body):
            st = f.body[k]
            if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and ok(st, st.target.id):
                j = k
                while j < len(f.body) and ok(f.body[j], st.target.id):
                    j += 1
                out += f.body[k:j][::-1]
                k = j
            else:
                out.append(st)
                k += 1
        f.body = out
        return f


class Float(ast.NodeTransformer):
    """x = e1; x += e2 starts from the second"""
    def visit_FunctionDef(self, f):
        out = []
        k = 0
        while k < len(f.body):
            a = f.body[k]
            b = f.body[k + 1] if k + 1 < len(f.body) else None
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(b, ast.AugAssign) \
                    and isinstance(b.op, ast.Add) and isinstance(b.target, ast.Name) and b.target.id == a.targets[0].id \
                    and not any(isinstance(x, ast.Name) and x.id == b.target.id for x in ast.walk(b.value)) and is_einsum(a.value) and is_einsum(b.value):
                out.append(ast.Assign(a.targets, ast.BinOp(a.value, ast.Add(), b.value)))
                k += 2
            else:
                out.append(a)
                k += 1
        f.body = out
        return f


class RangeWhile(ast.NodeTransformer):
    """[e for i in range(n)] keeps, for i in range(n) becomes for i in list(range(n))"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and getattr(n.iter.func, 'id', '') == 'range':
            n.iter = ast.Call(ast.Name('list', ast.Load()), [n.iter], [])
        return n


class Return(ast.NodeTransformer):
    """returned expressions are named first"""
    def visit_Return(self, n):
        if n.value is not None and not isinstance(n.value, ast.Name):
            return [ast.Assign([ast.Name('_result', ast.Store())], n.value), ast.Return(ast.Name('_result', ast.Load()))]
        return n


class IfExp(ast.NodeTransformer):
    """x = a if c else b becomes an if statement"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)], [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n


class AnyPrune(ast.NodeTransformer):
    """x.copy() becomes numpy.array(x)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
            return ast.Call(ast.Attribute(ast.Name('numpy', ast.Load()), 'array', ast.Load()), [n.func.value], [])
        return n


class DoubleLoop(ast.NodeTransformer):
    """directly nested for loops over ranges or names become one loop over itertools.product"""
    def visit_Module(self, m):
        used = [False]

        class V(ast.NodeTransformer):
            def visit_For(self, n):
                self.generic_visit(n)
                if len(n.body) == 1 and isinstance(n.body[0], ast.For) and not n.orelse and not n.body[0].orelse:
                    i = n.body[0]
                    outer = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                    if not any(isinstance(x, ast.Name) and x.id in outer for x in ast.walk(i.iter)) \
                            and not any(isinstance(x, (ast.Break,)) for x in ast.walk(i)) and not getattr(i, 'prod', False):
                        used[0] = True
                        r = ast.For(ast.Tuple([n.target, i.target], ast.Store()),
                                    ast.Call(ast.Attribute(ast.Name('itertools', ast.Load()), 'product', ast.Load()), [n.iter, i.iter], []), i.body, [])
                        r.prod = True
                        return r
                return n
        m = V().visit(m)
        if used[0]:
            m.body.insert(0, ast.Import([ast.alias('itertools')]))
        return m


class Hoist(ast.NodeTransformer):
    """numpy functions bound to local names"""
    def visit_FunctionDef(self, f):
        used = set()

        class V(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id == 'numpy' and n.attr in ('einsum', 'zeros', 'exp', 'log', 'ones'):
                    used.add(n.attr)
                    return ast.Name('np_' + n.attr, ast.Load())
                return n
        f.body = [V().visit(b) for b in f.body]
        f.body = [ast.Assign([ast.Name('np_' + u, ast.Store())], ast.Attribute(ast.Name('numpy', ast.Load()), u, ast.Load())) for u in sorted(used)] + f.body
        return f


class Pairs(ast.NodeTransformer):
    """consecutive independent assignments to names are merged into one tuple assignment"""
    def visit_FunctionDef(self, f):
        out, k = [], 0
        while k < len(f.body):
            a = f.body[k]
            b = f.body[k + 1] if k + 1 < len(f.body) else None
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (a, b) if x) and b is not None \
                    and not any(isinstance(x, ast.Name) and x.id == a.targets[0].id for x in ast.walk(b)):
                out.append(ast.Assign([ast.Tuple([a.targets[0], b.targets[0]], ast.Store())], ast.Tuple([a.value, b.value], ast.Load())))
                k += 2
            else:
                out.append(a)
                k += 1
        f.body = out
        return f


REWRITES = {c.__name__: c for c in (
    Rename, EinsumOrder, EinsumLetters, AugAssign, Sum, Negate, Commute, SwapIf, ElseAfterReturn, FlattenElse, Enumerate,
    EnumerateBack, Continue, Flip, Comprehension, Temps, Helper, Split, Wrapper, Keywords, Fractions, TransFn, TransEin,
    TransSwap, TensorDot, Optimize, NumpyAlias, Docs, Reorder, Float, RangeWhile, Return, IfExp, AnyPrune, DoubleLoop,
    Hoist, Pairs)}


def run(mod, names, checks, keep=None):
    src = open(os.path.join(REPO, 'cqcpy', mod + '.py')).read()
    tree = ast.parse(src)
    before = ast.dump(tree)
    for name in names:
        tree = REWRITES[name]().visit(tree)
        ast.fix_missing_locations(tree)
        tree = ast.parse(ast.unparse(tree))
    if ast.dump(tree) == before:
        return []
    d = tempfile.mkdtemp(prefix='refac-')
    bad = []
    try:
        shutil.copytree(os.path.join(REPO, 'cqcpy'), os.path.join(d, 'cqcpy'))
        with open(os.path.join(d, 'cqcpy', mod + '.py'), 'w') as f:
            f.write(ast.unparse(tree) + '\n')
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=os.path.join(d, 'ev'), VERIF_SEED='1', VERIF_TIER='quick')
        for c in checks:
            try:
                p = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), c], cwd=HERE, env=env, capture_output=True, text=True, timeout=900)
                if p.returncode or 'UNDECIDED' in p.stdout:
                    bad.append((c, p.returncode, p.stdout + p.stderr))
            except subprocess.TimeoutExpired:
                bad.append((c, 'timeout', ''))
        if keep and bad:
            shutil.copytree(d, os.path.join(keep, '%s-%s' % (mod, '+'.join(names))), dirs_exist_ok=True)
    finally:
        shutil.rmtree(d)
    return bad


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--rewrites')
    ap.add_argument('--modules')
    ap.add_argument('--checks')
    ap.add_argument('--keep')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    rw = a.rewrites.split(',') if a.rewrites else list(REWRITES)
    mods = a.modules.split(',') if a.modules else MODULES
    jobs = []
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        for m in mods:
            for r in rw:
                checks = a.checks.split(',') if a.checks else BY_MODULE[m]
                jobs.append((m, r, ex.submit(run, m, r.split('+'), checks, a.keep)))
        n = 0
        for m, r, j in jobs:
            bad = j.result()
            n += bool(bad)
            for c, code, out in bad:
                print('%s %s %s exit %s' % (m, r, c, code))
                if a.v:
                    print('\n'.join('    ' + l[:300] for l in out.splitlines() if 'VIOL' in l or 'UNDEC' in l or 'cqcpy/' in l or 'Error' in l)[:2500])
    print('%d rewrites of modules, %d with complaints' % (len(jobs), n))
    return 1 if n else 0


if __name__ == '__main__':
    sys.exit(main())
