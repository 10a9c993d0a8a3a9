"""Abstract interpreter for the Python subset used by array code.

Flow-sensitive, functions are analysed in the calling context; a condition whose truth is unknown is analysed both ways
(locally, per loop body or per call under analysis).  Nothing of the analysed code is executed.
"""
import ast
import itertools
import os
from fractions import Fraction

from . import poly
from .poly import ONE, named, NAMED_INFO, space
from .tensor import (Dim, Tensor, SpaceError, Unknown, axis_dim, axis_name, add, mul, neg, scale, const, scalar, conj,
                     transpose, select, expand, drop_axis, add_axis, fix_index, kjoin, KINDS, lossy, einsum)
from . import tensor as T
from .values import (Top, DType, Ext, Native, Module, Func, Cls, Obj, Bound, Arr, Entry, PList, PDict, Cond, Gen,
                     Unshaped)


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', 'update', 'setdefault', 'popitem',
            'fill', 'itemset', 'put', 'resize', 'partition', 'setflags', 'add'}


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Raised(Exception):
    """the analysed code raises"""
    def __init__(self, name, loc=None, msg=''):
        Exception.__init__(self, '%s %s' % (name, msg))
        self.name = name
        self.loc = loc
        self.msg = msg
        self.explicit = False       # a raise statement of the analysed code


class AbsError(Exception):
    """a definite error for some admissible input, with its location"""
    def __init__(self, msg, loc):
        Exception.__init__(self, msg)
        self.msg = msg
        self.loc = loc


class TooComplex(Exception):
    """analysis budget exhausted"""


class Oracle(object):
    def __init__(self):
        self.prefix = []
        self.pos = 0
        self.keys = {}
        self.guards = []

    def start(self):
        self.pos = 0
        self.keys = {}
        self.guards = []

    def ask(self, key):
        if self.pos == len(self.prefix):
            self.prefix.append(True)
        v = self.prefix[self.pos]
        self.pos += 1
        self.keys[key] = v
        self.guards.append((key, v))
        return v

    def advance(self):
        """next path; False when exhausted"""
        self.prefix = self.prefix[:self.pos]
        while self.prefix and self.prefix[-1] is False:
            self.prefix.pop()
        if not self.prefix:
            return False
        self.prefix[-1] = False
        return True


class Frame(object):
    def __init__(self, module, func=None, parent=None):
        self.vars = {}
        self.module = module
        self.func = func
        self.parent = parent
        self.globals = set()
        self.nonlocals = set()
        self.yields = None


class Binder(object):
    """loop variable: named index var with lo <= var < hi"""
    __slots__ = ('var', 'lo', 'hi')

    def __init__(self, var, lo, hi):
        self.var = var
        self.lo = Dim.of(lo)
        self.hi = Dim.of(hi)

    def __repr__(self):
        return '%s in [%r,%r)' % (NAMED_INFO[self.var][0], self.lo, self.hi)


class Scope(object):
    """symbolic loop body being analysed"""
    def __init__(self, binders, guards):
        self.binders = binders
        self.guards = guards
        self.oracle = Oracle()


class IndexOf(object):
    """position of a value in a (symbolic) list, plus a constant"""
    def __init__(self, lst, value, off=0):
        self.lst = lst
        self.value = value
        self.off = off

    def sa_binop(self, I, op, other, reflected):
        if op in ('Add', 'Sub') and isinstance(other, int) and not (op == 'Sub' and reflected):
            return IndexOf(self.lst, self.value, self.off + (other if op == 'Add' else -other))
        return NotImplemented

    def __repr__(self):
        return 'IndexOf(%r)' % (self.value,)


class SymRange(object):
    def __init__(self, lo, hi):
        self.lo = Dim.of(lo)
        self.hi = Dim.of(hi)

    def __repr__(self):
        return 'range(%r,%r)' % (self.lo, self.hi)


class Ix(tuple):
    """open mesh of whole ranges: selects like slices, but gives a copy"""


class SymIter(object):
    """iterable given by generators"""
    def __init__(self, gens):
        self.gens = gens


class Log(object):
    """write to an array from inside a symbolic loop"""
    __slots__ = ('binders', 'guards', 'index', 'op', 'value', 'loc', 'view')

    def __init__(self, binders, guards, index, op, value, loc):
        self.binders = binders
        self.guards = guards
        self.index = index
        self.op = op
        self.value = value
        self.loc = loc

    def __repr__(self):
        return 'Log(%s %s %r | %r ; %r)' % (self.index, self.op, self.value, self.binders, self.guards)


MAX_PATHS = 4096
MAX_CALL_DEPTH = 60


class Interp(object):
    def __init__(self, repo='/repo', package='cqcpy'):
        self.repo = repo
        self.package = package
        self.modules = {}
        self.frames = []
        self.scopes = []
        self.oracle0 = None
        self.loc = ('?', '?', 0)
        self.effects = []          # (origin, loc, what)
        self.nondet = []           # (what, loc): hidden inputs read
        self.origin_taints = []    # inputs handed to unmodelled code
        self.snap = None           # state of the arguments of the outermost call
        self.unknowns = []         # (loc, why)
        self.functions_seen = {}   # qualified name -> (file, line)
        self.einsum_sites = set()
        self.array_ops = 0
        self.overrides = {}        # 'module.qualname' -> fn(interp, args, kwargs) or None to fall through
        self.ext = {}
        self.moved_write = None    # occupations of strings set one by one
        self.obj_subst = None
        self.bit_atoms = set()     # atoms whose elements are zero or one
        self.loopvar = 0
        self.free_keys = ()
        self.cmp_polys = {}     # condition -> the polynomial compared with zero
        self.small = False
        self.breaks = []           # loops left early under free conditions
        self.steps = 0
        self.max_steps = 3000000
        self.mark_origin = None
        self.loss_events = []
        from . import npmodel
        npmodel.install(self)

    # ------------------------------------------------------------ modules

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.replace('.', os.sep)
        path = os.path.join(self.repo, rel + '.py')
        if not os.path.exists(path):
            path = os.path.join(self.repo, rel, '__init__.py')
            if not os.path.exists(path):
                raise Unknown('module %s not found' % name)
        m = Module(name, path)
        self.modules[name] = m
        with open(path) as f:
            src = f.read()
        m.tree = ast.parse(src, path)
        m.src = src.splitlines()
        m.env['__name__'] = name
        m.env['__file__'] = path
        fr = Frame(m)
        fr.vars = m.env
        saved = self.frames, self.scopes, self.loc, self.mark_origin
        self.frames = [fr]
        self.scopes = []
        self.mark_origin = 'module state of %s' % name
        o = self.oracle0
        self.oracle0 = Oracle()
        try:
            self.exec_block(m.tree.body)
        finally:
            self.frames, self.scopes, self.loc, self.mark_origin = saved
            self.oracle0 = o
        m.loaded = True
        return m

    def relpath(self, path):
        return os.path.relpath(path, self.repo)

    def lookup_global(self, modname, name):
        m = self.module(modname)
        if name not in m.env:
            raise KeyError('%s.%s' % (modname, name))
        return m.env[name]

    # ------------------------------------------------------------ helpers

    @property
    def frame(self):
        return self.frames[-1]

    @property
    def depth(self):
        return len(self.scopes)

    def unknown(self, why):
        self.unknowns.append((self.loc, why))
        return Top(why)

    def new(self, val, tag=None):
        a = Arr(val, depth=self.depth)
        if self.mark_origin:
            a.origin = self.mark_origin
        self.array_ops += 1
        return a

    def wrap(self, t):
        if isinstance(t, Top):
            return t
        if isinstance(t, Tensor) and t.rank == 0:
            return t
        return self.new(t)

    def plist(self, values=()):
        l = PList(values, depth=self.depth)
        if self.mark_origin:
            l.origin = self.mark_origin
        return l

    def view(self, base, get, put):
        return Arr(None, base, get, put, depth=base.depth)

    def effect(self, origin, what):
        self.effects.append((origin, self.loc, what))

    def to_tensor(self, v):
        if isinstance(v, Tensor):
            return v
        if isinstance(v, Arr):
            t = v.read()
            root = v.root()
            if root.logs:
                raise Unknown('array read while a symbolic loop is writing to it')
            if isinstance(t, Top):
                raise Unknown(t.why)
            if isinstance(t, Mask):
                return t.tensor()
            if not isinstance(t, Tensor):
                raise Unknown('array value of another domain')
            return t
        if isinstance(v, bool):
            return const(int(v))
        if isinstance(v, (int, float, Fraction)):
            return const(v)
        if isinstance(v, Dim):
            return self.dim_tensor(v)
        if isinstance(v, (PList, tuple)):
            return self.stack_values(v.values() if isinstance(v, PList) else v)
        if isinstance(v, Top):
            raise Unknown(v.why)
        raise Unknown('not an array: %r' % (v,))

    def dim_tensor(self, d):
        p = poly.pconst(d.c)
        for s, c in d.t.items():
            nm = 'dim:' + (poly.SPACE_NAMES[s] if s >= 0 else NAMED_INFO[s][0])
            a = poly.atom(nm, 0, real=True)
            poly.padd_into(p, {((a,),): Fraction(c)})
        return scalar(p, 'i')

    @staticmethod
    def vanishing(p):
        """a norm, largest element or sum of products of whole arrays, compared with (next to) zero"""
        if abs(p.get((), 0)) > 1e-10:
            return False
        some = False
        for m in p:
            if not m:
                continue
            whole = False
            for f in m:
                nm = poly.ATOMS[f[0]].name if f[0] != poly.SGN else ''
                if any(i < 0 and '.' not in NAMED_INFO[i][0] for i in f[1:]):
                    return False
                if len(f) > 1 or '<' in nm or '#' in nm and not nm.startswith('acc#'):
                    whole = True
            if not whole:
                return False
            some = True
        return some

    def tensor_dim(self, p):
        """a polynomial linear in sizes, back as a size"""
        t, c = {}, 0
        for m, k in p.items():
            if k.denominator != 1:
                return None
            if not m:
                c = int(k)
                continue
            if len(m) != 1 or len(m[0]) != 1:
                return None
            nm = poly.ATOMS[m[0][0]].name if m[0][0] != poly.SGN else ''
            if not nm.startswith('dim:'):
                return None
            nm = nm[4:]
            s = poly.SPACE_IDS[nm] if nm in poly.SPACE_IDS else named(nm)
            t[s] = int(k)
        return Dim(t, c)

    def stack_values(self, vals):
        ts = [self.to_tensor(v) for v in vals]
        if not ts:
            return Tensor(((),), {}, 'f')
        return T.concat([add_axis(t, 0) for t in ts], 0)

    # ------------------------------------------------------------ decisions

    def cur_oracle(self):
        return self.scopes[-1].oracle if self.scopes else self.oracle0

    def known_guard(self, key):
        for sc in reversed(self.scopes):
            if key in sc.oracle.keys:
                return sc.oracle.keys[key]
            for k, v in sc.guards:
                if k == key:
                    return v
        if self.oracle0 is not None and key in self.oracle0.keys:
            return self.oracle0.keys[key]
        return None

    def decide(self, key):
        v = self.known_guard(key)
        if v is not None:
            return v
        o = self.cur_oracle()
        if o is None:
            raise Unknown('undecided condition %r' % (key,))
        v = o.ask(key)
        if key[0] == 'pos':
            # i < j decided true: j < i and j <= i decided as well
            d = Dim(dict(key[1][0]), key[1][1])
            if v:
                # d >= 1 -> -d > 0 false
                o.keys[('pos', d.mul(-1).key())] = False
                o.keys[('pos', d.mul(-1).add(1).key())] = False      # 1-d > 0 iff d<1 : false
                o.keys[('zero', self.zero_key(d))] = False
            else:
                o.keys[('pos', d.mul(-1).add(1).key())] = True       # 1-d > 0
        elif key[0] == 'zero' and v:
            d = Dim(dict(key[1][0]), key[1][1])
            o.keys[('pos', d.key())] = False
            o.keys[('pos', d.mul(-1).key())] = False
        return v

    @staticmethod
    def zero_key(d):
        k = d.key()
        m = d.mul(-1).key()
        return max(k, m)

    def bounds(self, d):
        """(lower, upper) linear forms without loop variables"""
        ranges = {}
        for sc in self.scopes:
            for b in sc.binders:
                ranges[b.var] = b
        lo = up = d
        for _ in range(20):
            done = True
            for s, c in list(lo.t.items()):
                if s < 0:
                    b = ranges.get(s)
                    if b is None:
                        return None, None
                    rest = lo.add(Dim({s: 1}), -c)
                    lo = rest.add(b.lo.mul(c)) if c > 0 else rest.add(b.hi.add(-1).mul(c))
                    done = False
                    break
            for s, c in list(up.t.items()):
                if s < 0:
                    b = ranges.get(s)
                    if b is None:
                        return None, None
                    rest = up.add(Dim({s: 1}), -c)
                    up = rest.add(b.hi.add(-1).mul(c)) if c > 0 else rest.add(b.lo.mul(c))
                    done = False
                    break
            if done:
                return lo, up
        return None, None

    def order_facts(self):
        """known x - y >= c between loop variables, sizes and zero (None), from ranges and decided guards"""
        facts = {}

        def put(d, least):
            # d >= least
            p = self.difference_nodes(d)
            if p is not None:
                facts[p] = max(facts.get(p, least - d.c), least - d.c)
                for x in p:
                    if x is not None and x >= 0:
                        facts.setdefault((x, None), 0)
        for sc in self.scopes:
            for b in sc.binders:
                v = Dim({b.var: 1})
                put(v.add(b.lo, -1), 0)
                put(b.hi.add(v, -1), 1)
            for key, val in list(sc.guards) + list(sc.oracle.keys.items()):
                if key[0] not in ('pos', 'zero'):
                    continue
                d = Dim(dict(key[1][0]), key[1][1])
                if key[0] == 'pos':
                    put(d if val else d.mul(-1), 1 if val else 0)
                elif val:
                    put(d, 0)
                    put(d.mul(-1), 0)
        return facts

    @staticmethod
    def difference_nodes(d):
        v = sorted(d.t.values())
        if v == [-1, 1]:
            return tuple(sorted(d.t, key=lambda s: -d.t[s]))
        if v == [1]:
            return next(iter(d.t)), None
        if v == [-1]:
            return None, next(iter(d.t))
        return None

    def least_difference(self, x, y):
        """greatest known c with x - y >= c, or None"""
        facts = self.order_facts()
        if not facts:
            return None
        best = {x: 0}
        for _ in range(len({k for f in facts for k in f}) + 1):
            changed = False
            for (a, b), c in facts.items():
                if a in best and (b not in best or best[b] < best[a] + c):
                    best[b] = best[a] + c
                    changed = True
            if not changed:
                break
        return best.get(y)

    def difference_range(self, d):
        """(least, greatest) value of x - y + c as far as known"""
        p = self.difference_nodes(d)
        if p is None:
            return None, None
        x, y = p
        lo, hi = self.least_difference(x, y), self.least_difference(y, x)
        return None if lo is None else lo + d.c, None if hi is None else d.c - hi

    def dim_pos(self, d):
        """is d > 0: True/False/Cond"""
        if not d.t:
            return d.c > 0
        r = Dim(None, 0).lt(d)
        if r is not None and not any(s < 0 for s in d.t):
            return r
        lo, up = self.bounds(d)
        if lo is not None:
            if Dim(None, 0).lt(lo) is True:
                return True
            if Dim(None, 0).lt(up) is False:
                return False
        lo, up = self.difference_range(d)
        if lo is not None and lo > 0:
            return True
        if up is not None and up <= 0:
            return False
        return Cond(('pos', d.key()))

    def dim_zero(self, d):
        if not d.t:
            return d.c == 0
        r = d.eq(0)
        if r is not None and not any(s < 0 for s in d.t):
            return r
        lo, up = self.bounds(d)
        if lo is not None:
            if Dim(None, 0).lt(lo) is True or up.lt(0) is True:
                return False
        lo, up = self.difference_range(d)
        if lo is not None and lo > 0 or up is not None and up < 0:
            return False
        if lo == 0 and up == 0:
            return True
        return Cond(('zero', self.zero_key(d)))

    def truth(self, v):
        if isinstance(v, Cond):
            r = self.decide(v.key)
            return (not r) if v.neg else r
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, tuple, Fraction)):
            return bool(v)
        if isinstance(v, PList):
            if v.concrete():
                return len(v.entries) > 0
            return self.truth(self.unknown_cond('list'))
        if isinstance(v, PDict):
            return bool(v.d)
        if isinstance(v, Dim):
            z = self.dim_zero(v)
            if isinstance(z, Cond):
                return not self.truth(z)
            return not z
        if isinstance(v, (Func, Cls, Native, Ext, Obj, Module, Bound)):
            return True
        if isinstance(v, Maybe):
            return not self.truth(Cond(v.key, True))
        if isinstance(v, Tensor) and v.rank == 0:
            p = v.scalar_poly()
            if not p:
                return False
            if set(p) == {()}:
                return True
            r = self.sign_compare('NotEq', p)
            if r is None:
                r = self.bit_compare('NotEq', p)
            if r is not None:
                return self.truth(r)
        return self.truth(self.unknown_cond(repr(v)[:60]))

    def unknown_cond(self, what):
        o = self.cur_oracle()
        n = o.pos if o else 0
        return Cond(('?', self.loc, n, what))

    def run_paths(self, fn):
        """run fn once per combination of undecided top-level conditions; yields (guards, outcome)"""
        saved = self.oracle0
        self.oracle0 = Oracle()
        n = 0
        try:
            while True:
                self.oracle0.start()
                self.scopes = []
                yield fn, self.oracle0
                n += 1
                if not self.oracle0.advance():
                    break
                if n > 256:
                    raise TooComplex('too many paths')
        finally:
            self.oracle0 = saved

    # ------------------------------------------------------------ statements

    def exec_block(self, body):
        for st in body:
            self.exec_stmt(st)

    def exec_stmt(self, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooComplex('step budget exhausted')
        fr = self.frame
        self.loc = (fr.module.path, fr.func.name if fr.func else '<module>', st.lineno)
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            self.unknown('statement %s' % type(st).__name__)
            self.havoc([st])
            return
        try:
            m(st)
        except Unknown as e:
            # the statement could not be followed: whatever it may write is no longer known
            self.unknown(str(e))
            self.havoc([st])

    def st_Pass(self, st):
        pass

    def st_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value)

    def st_Return(self, st):
        raise ReturnEx(self.eval(st.value) if st.value is not None else None)

    def st_Break(self, st):
        e = BreakEx()
        e.loc = self.loc
        raise e

    def st_Continue(self, st):
        raise ContinueEx()

    def st_Global(self, st):
        self.frame.globals.update(st.names)

    def st_Nonlocal(self, st):
        self.frame.nonlocals.update(st.names)

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.frame.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                if isinstance(o, Obj):
                    if o.origin:
                        self.effect(o.origin, 'attribute %s deleted' % t.attr)
                    o.attrs.pop(t.attr, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                k = self.eval(t.slice)
                if isinstance(o, PDict):
                    if o.origin:
                        self.effect(o.origin, 'item deleted')
                    o.d.pop(self.dkey(k), None)
                elif isinstance(o, PList):
                    if o.origin:
                        self.effect(o.origin, 'item deleted')
                    if o.concrete() and isinstance(k, int):
                        del o.entries[k]
                    else:
                        o.entries = [Entry(Top('del'))]

    def st_Import(self, st):
        for a in st.names:
            if a.name.split('.')[0] == self.package:
                m = self.module(a.name)
                if a.asname:
                    self.bind(a.asname, m)
                else:
                    self.bind(a.name.split('.')[0], self.module(self.package))
            elif a.asname:
                self.bind(a.asname, Ext(a.name))
            else:
                self.bind(a.name.split('.')[0], Ext(a.name.split('.')[0]))

    def st_ImportFrom(self, st):
        mod = st.module or ''
        if st.level:
            base = self.frame.module.name.split('.')
            if not self.frame.module.path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (st.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        for a in st.names:
            if mod.split('.')[0] == self.package:
                if a.name == '*':
                    for k, v in self.module(mod).env.items():
                        if not k.startswith('_'):
                            self.bind(k, v)
                    continue
                m = self.module(mod)
                if a.name in m.env:
                    v = m.env[a.name]
                else:
                    v = self.module(mod + '.' + a.name)
            elif mod == '__future__':
                continue
            else:
                v = Ext(mod + '.' + a.name)
            self.bind(a.asname or a.name, v)

    def st_FunctionDef(self, st):
        f = self.make_func(st)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.eval(d)
            v = self.decorate(dv, v)
        self.bind(st.name, v)

    st_AsyncFunctionDef = st_FunctionDef

    def decorate(self, dv, f):
        if isinstance(dv, Ext):
            if dv.path == 'builtins.staticmethod' and isinstance(f, Func):
                f.kind = 'staticmethod'
                return f
            if dv.path == 'builtins.classmethod' and isinstance(f, Func):
                f.kind = 'classmethod'
                return f
            if dv.path == 'builtins.property' and isinstance(f, Func):
                f.kind = 'property'
                return f
            if dv.path in ('functools.lru_cache', 'functools.cache', 'functools.wraps', 'numpy.vectorize',
                           'functools.total_ordering', 'dataclasses.dataclass'):
                if dv.path in ('functools.lru_cache', 'functools.cache'):
                    f.attrs['__cached__'] = True
                return f
        return self.call(dv, [f], {})

    def make_func(self, st, name=None):
        args = st.args
        mo = self.mark_origin
        self.mark_origin = 'default argument'
        try:
            defaults = [self.eval(d) for d in args.defaults]
            kwd = {a.arg: self.eval(d) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None}
        finally:
            self.mark_origin = mo
        fr = self.frame
        closure = fr if fr.func is not None or isinstance(fr, ClassFrame) else None
        if isinstance(fr, ClassFrame):
            closure = fr.parent if fr.parent is not None and fr.parent.func is not None else None
        return Func(st, fr.module, closure, name or getattr(st, 'name', '<lambda>'), defaults, kwd)

    def st_ClassDef(self, st):
        bases = [self.eval(b) for b in st.bases]
        fr = ClassFrame(self.frame.module, None, self.frame)
        self.frames.append(fr)
        try:
            self.exec_block(st.body)
        finally:
            self.frames.pop()
        c = Cls(st.name, self.frame.module, bases, fr.vars)
        for v in fr.vars.values():
            if isinstance(v, Func):
                v.cls = c
        for d in st.decorator_list:
            self.eval(d)
        self.bind(st.name, c)

    def st_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def st_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    def st_Assert(self, st):
        v = self.eval_cond(st.test)
        if v is False:
            raise Raised('AssertionError', self.loc)
        # an undecided assertion is assumed to hold (it does whenever the call succeeds)
        if isinstance(v, Cond):
            if v.key[0] == 'zero' and not v.neg:
                items, c = v.key[1]
                cs = [x for _, x in items] + ([c] if c else [])
                if all(n >= 0 for n, _ in items) and (min(cs) > 0 or max(cs) < 0):
                    raise Raised('AssertionError', self.loc)    # holds for empty spaces only
            o = self.cur_oracle()
            if o is not None and self.known_guard(v.key) is None:
                o.keys[v.key] = not v.neg

    def eval_cond(self, node):
        """truth of a test without deciding unknown ones: True / False / Cond"""
        v = self.eval(node)
        if isinstance(v, Cond):
            k = self.known_guard(v.key)
            if k is None:
                return v
            return (not k) if v.neg else k
        if isinstance(v, Top):
            return self.unknown_cond('top')
        if isinstance(v, (Arr, Tensor)):
            return self.unknown_cond('array')
        return self.truth(v)

    def st_Raise(self, st):
        name = 'Exception'
        if st.exc is not None:
            e = st.exc
            if isinstance(e, ast.Call):
                e = e.func
            if isinstance(e, ast.Name):
                name = e.id
            elif isinstance(e, ast.Attribute):
                name = e.attr
        else:
            name = 'reraise'
        e = Raised(name, self.loc)
        e.explicit = True
        raise e

    def st_If(self, st):
        v = self.eval(st.test)
        if self.truth(v):
            self.exec_block(st.body)
        else:
            self.exec_block(st.orelse)

    def st_While(self, st):
        n = 0
        while True:
            v = self.eval(st.test)
            if isinstance(v, (Cond, Top, Arr, Tensor)) and not (isinstance(v, Cond) and self.known_guard(v.key) is not None):
                self.unknown('while loop with undecided condition')
                self.havoc(st.body)
                return
            if not self.truth(v):
                self.exec_block(st.orelse)
                return
            try:
                self.exec_block(st.body)
            except BreakEx:
                return
            except ContinueEx:
                pass
            n += 1
            if n > 2000:
                self.unknown('long while loop')
                self.havoc(st.body)
                return

    def st_Try(self, st):
        depth = len(self.scopes)
        try:
            self.exec_block(st.body)
        except Raised as e:
            del self.scopes[depth:]
            for h in st.handlers:
                if self.handler_matches(h, e):
                    if h.name:
                        self.bind(h.name, Top('exception'))
                    try:
                        self.exec_block(h.body)
                    except Raised as e2:
                        if e2.name == 'reraise':
                            raise e
                        raise
                    break
            else:
                self.exec_block(st.finalbody)
                raise
        except (ReturnEx, BreakEx, ContinueEx):
            self.exec_block(st.finalbody)
            raise
        else:
            self.exec_block(st.orelse)
        self.exec_block(st.finalbody)

    def handler_matches(self, h, e):
        if h.type is None:
            return True
        names = []
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            names.append(t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '?'))
        table = {'ValueError': ('ValueError',), 'IndexError': ('IndexError', 'LookupError'), 'KeyError': ('KeyError', 'LookupError'),
                 'AttributeError': ('AttributeError',), 'TypeError': ('TypeError',)}
        ok = set(table.get(e.name, (e.name,))) | {'Exception', 'BaseException'}
        return bool(ok & set(names))

    def st_With(self, st):
        for it in st.items:
            v = self.eval(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.exec_block(st.body)

    def st_AugAssign(self, st):
        t = st.target
        op = type(st.op).__name__
        v = self.eval(st.value)
        if isinstance(t, ast.Name):
            cur = self.load(t.id)
            new = self.inplace(cur, op, v)
            if new is not cur:
                self.bind(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            new = self.inplace(cur, op, v)
            self.setattr(o, t.attr, new, quiet=new is cur)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            idx = self.eval_index(t.slice)
            if isinstance(o, Arr):
                self.aug_item(o, idx, op, v)
            else:
                cur = self.getitem(o, idx)
                new = self.inplace(cur, op, v)
                self.setitem(o, idx, new)
        else:
            self.unknown('augmented assignment target')

    def aug_item(self, arr, idx, op, v):
        c = arr.read()
        if hasattr(c, 'sa_augindex'):
            return c.sa_augindex(self, arr, idx, op, v)
        if self.moved_write is not None and op in ('Add', 'Sub') and self.moved_write(arr, idx, v, op):
            return
        if self.symbolic_index(idx) or (self.depth > arr.root().depth):
            if op in ('Add', 'Sub'):
                if op == 'Sub':
                    v = self.unary('USub', v)
                self.write_index(arr, idx, v, '+=')
                return
        cur = self.getitem(arr, idx)
        if isinstance(cur, Arr):
            self.inplace(cur, op, v)
            if cur.base is None and cur is not arr:         # a selection by arrays is a copy
                self.setitem(arr, idx, cur)
        else:
            self.setitem(arr, idx, self.binop(op, cur, v))

    # ------------------------------------------------------------ havoc (sound treatment of what is not modelled)

    def havoc(self, body):
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.bind(n.id, Top('havoc'))
                elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                    b = n.value
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name):
                        self.taint(self.load(b.id, True))
                elif isinstance(n, ast.Call):
                    args = list(n.args) + [k.value for k in n.keywords]
                    if isinstance(n.func, ast.Attribute):
                        args.append(n.func.value)
                    for a in args:
                        while isinstance(a, (ast.Subscript, ast.Attribute, ast.Starred)):
                            a = a.value
                        if isinstance(a, ast.Name):
                            self.taint(self.load(a.id, True))

    def taint(self, v, why='havoc'):
        if isinstance(v, Arr):
            r = v.root()
            if r.origin:
                self.origin_taints.append(r.origin)
            r.val = Top(why)
        elif isinstance(v, PList):
            v.entries = [Entry(Top(why))]
        elif isinstance(v, PDict):
            v.d = {k: Top(why) for k in v.d}
        elif isinstance(v, Obj):
            for k, x in v.attrs.items():
                if not isinstance(x, Obj):
                    self.taint(x, why)
        elif isinstance(v, tuple):
            for x in v:
                self.taint(x, why)

    # ------------------------------------------------------------ names

    def bind(self, name, v):
        fr = self.frame
        if name in fr.globals:
            if fr.func is not None:
                self.effect('module state', 'global %s assigned' % name)
            fr.module.env[name] = v
            return
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if name in p.vars:
                    p.vars[name] = v
                    return
                p = p.parent
        fr.vars[name] = v

    def load(self, name, quiet=False):
        fr = self.frame
        f = fr
        while f is not None:
            if name in f.vars and not (isinstance(f, ClassFrame) and f is not fr):
                return f.vars[name]
            f = f.parent
        if name in fr.module.env:
            return fr.module.env[name]
        if name in self.ext_builtins:
            return Ext('builtins.' + name)
        if quiet:
            return None
        raise Raised('NameError', self.loc, name)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval_index(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack(self, v, elts):
        n = len(elts)
        star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Top):
            return [Top(v.why)] * n
        if isinstance(v, MaybeTuple):
            vals = v.items(self)
        else:
            try:
                vals = self.concrete_iter(v, n if not star else None)
            except Unknown as e:
                self.unknown(str(e))
                return [Top('unpack')] * n
        if star:
            k = star[0]
            after = n - k - 1
            return vals[:k] + [self.plist(vals[k:len(vals) - after])] + vals[len(vals) - after:]
        if len(vals) != n:
            raise AbsError('cannot unpack %d values into %d names' % (len(vals), n), self.loc)
        return vals

    def setattr(self, o, name, v, quiet=False):
        if isinstance(o, Obj):
            if o.origin and not quiet:
                self.effect(o.origin, 'attribute %s assigned' % name)
            o.attrs[name] = v
        elif isinstance(o, Cls):
            if not quiet:
                self.effect('class state of %s' % o.name, 'attribute %s assigned' % name)
            o.attrs[name] = v
        elif isinstance(o, Func):
            if not quiet:
                self.effect('function state of %s' % o.name, 'attribute %s assigned' % name)
            o.attrs[name] = v
        elif isinstance(o, Module):
            if not quiet:
                self.effect('module state of %s' % o.name, 'attribute %s assigned' % name)
            o.env[name] = v
        elif isinstance(o, Arr) and name == 'shape':
            self.taint(o, 'shape assignment')
        elif isinstance(o, Top):
            pass
        elif isinstance(o, Ext):
            self.effect('library state', '%s.%s assigned' % (o.path, name))
        else:
            self.unknown('attribute assignment')

    # ------------------------------------------------------------ loops

    def st_For(self, st):
        it = self.eval(st.iter)
        try:
            gens = self.iterate(it)
        except Unknown as e:
            self.unknown('loop over %s' % e)
            self.havoc(st.body)
            for n in ast.walk(st.target):
                if isinstance(n, ast.Name):
                    self.bind(n.id, Top('loop variable'))
            return
        if isinstance(gens, list) and all(not isinstance(g, Gen) for g in gens):
            for v in gens:
                self.assign(st.target, v)
                try:
                    self.exec_block(st.body)
                except BreakEx:
                    break
                except ContinueEx:
                    pass
            else:
                self.exec_block(st.orelse)
            return
        self.symbolic_for(st, gens)

    def fresh_var(self, hint='i'):
        self.loopvar += 1
        return named('%s%d' % (hint, self.loopvar))

    def iterate(self, it):
        """list of concrete values, or list of Gen (possibly mixed with plain values wrapped as Gen)"""
        if isinstance(it, Top):
            raise Unknown(it.why)
        if isinstance(it, Arr):
            t = it.read()
            if isinstance(t, IndexArr):
                return t.gens(self)
            if hasattr(t, 'sa_elems'):
                return t.sa_elems(self)
            if not isinstance(t, Tensor):
                raise Unknown('array')
            ax = t.axes[0]
            if all(s == ONE for s in ax):
                return [self.getitem(it, k) for k in range(len(ax))]
            d = axis_dim(ax)
            gens = []
            off = Dim()
            for s in ax:
                hi = off.add(Dim.sp(s))
                if s == ONE:
                    gens.append(Gen([], [], LazyItem(it, off.simp())))
                    off = hi
                    continue
                v = self.fresh_var('x')
                b = Binder(v, off, hi)
                gens.append(Gen([b], [], LazyItem(it, Dim({v: 1}))))
                off = hi
            return gens
        if isinstance(it, SymRange):
            v = self.fresh_var('i')
            return [Gen([Binder(v, it.lo, it.hi)], [], Dim({v: 1}))]
        if isinstance(it, SymIter):
            return [self.rename_entry(g) if isinstance(g, Gen) else g for g in it.gens]
        if hasattr(it, 'sa_iter'):
            return it.sa_iter(self)
        if isinstance(it, PList):
            if it.concrete():
                return [e.value for e in it.entries]
            out = []
            for e in it.entries:
                out.append(self.rename_entry(e))
            return out
        if isinstance(it, PDict):
            return [self.undkey(k) for k in it.d]
        if isinstance(it, (tuple, range, str)):
            return list(it)
        if isinstance(it, Dim):
            raise Unknown('size')
        if isinstance(it, Obj) and isinstance(it.cls, Cls) and it.cls.lookup('__iter__'):
            return self.iterate(self.call(self.getattr(it, '__iter__'), [], {}))
        raise Unknown(repr(it)[:50])

    def rename_entry(self, e):
        """fresh copies of the binders of a list entry"""
        if not e.binders:
            return Gen([], list(e.guards), e.value)
        m = {}
        bs = []
        for b in e.binders:
            nv = self.fresh_var('e')
            m[b.var] = nv
        for b in e.binders:
            bs.append(Binder(m[b.var], subst_dim(b.lo, m), subst_dim(b.hi, m)))
        gs = [(subst_key(k, m), v) for k, v in e.guards]
        return Gen(bs, gs, self.subst_value(e.value, m))

    def subst_value(self, v, m):
        if isinstance(v, Dim):
            return subst_dim(v, m)
        if isinstance(v, tuple):
            return tuple(self.subst_value(x, m) for x in v)
        if isinstance(v, Tensor):
            return Tensor(v.axes, {k: poly.pmap(p, lambda i: m.get(i, i)) for k, p in v.blocks.items()}, v.kind)
        if isinstance(v, LazyItem):
            return LazyItem(v.arr, self.subst_value(v.idx, m))
        if isinstance(v, IndexOf):
            return IndexOf(v.lst, self.subst_value(v.value, m), v.off)
        if hasattr(v, 'subst'):
            return v.subst(m)
        if isinstance(v, Arr) and isinstance(v.read(), Tensor):
            if not mentions(v.read(), m):
                return v
            back = {b: a for a, b in m.items()}
            return self.view(v, lambda t: self.subst_value(t, m), lambda t, new: self.subst_value(new, back))
        if mentions(v, m):
            r = self.obj_subst(v, m) if isinstance(v, Obj) and self.obj_subst is not None else None
            if r is None:
                raise Unknown('element of a list made in a loop')
            return r
        return v

    def symbolic_for(self, st, gens):
        fr = self.frame
        stored = set()
        for s in st.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    stored.add(n.id)
        tnames = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
        pre = {n: fr.vars[n] for n in stored if n in fr.vars and n not in tnames}
        base_vars = dict(fr.vars)
        accs = {}
        for n, v in pre.items():
            if isinstance(v, (int, float, Tensor)) and not isinstance(v, bool):
                self.loopvar += 1
                a = poly.atom('acc#%s#%d' % (n, self.loopvar), 0, real=True)
                kind = v.kind if isinstance(v, Tensor) else ('i' if isinstance(v, int) else 'f')
                accs[n] = (a, scalar({((a,),): Fraction(1)}, kind))
        deltas = {n: [] for n in accs}
        flips = {n: [] for n in accs}
        bad = set()
        lists = {id(v): (v, len(v.entries)) for v in fr.vars.values() if isinstance(v, PList) and v.depth == self.depth}
        for g in gens:
            if not isinstance(g, Gen):
                g = Gen([], [], g)
            for kind, sc in self.scope_paths(g.binders, g.guards):
                fr.vars.clear()
                fr.vars.update(base_vars)
                for n in accs:
                    fr.vars[n] = accs[n][1]
                try:
                    self.assign(st.target, self.force(g.value))
                    self.exec_block(st.body)
                except ContinueEx:
                    pass
                except (BreakEx, ReturnEx) as e:
                    keys = [k for k, _ in sc.oracle.guards]
                    if isinstance(e, BreakEx) and keys and all(k[0] in self.free_keys for k in keys):
                        # some iteration ends the loop and others would have gone on: left to the check
                        self.breaks.append((tuple(b.var for b in g.binders), e.loc))
                        continue
                    self.scopes.pop()
                    fr.vars.clear()
                    fr.vars.update(base_vars)
                    self.unknown('early exit from a symbolic loop')
                    self.havoc(st.body)
                    if any(isinstance(n, ast.Return) for s in st.body for n in ast.walk(s)):
                        raise ReturnEx(Top('return from a symbolic loop'))
                    return
                gl = list(g.guards) + list(sc.oracle.guards)
                for n in accs:
                    v = fr.vars.get(n)
                    d = self.acc_delta(v, accs[n][0])
                    if d is None and self.acc_flipped(v, accs[n][0]):
                        flips[n].append((g.binders, gl, const(1)))
                    elif d is None:
                        bad.add(n)
                    elif d.scalar_poly():
                        deltas[n].append((g.binders, gl, d))
                for n in pre:
                    if n not in accs and fr.vars.get(n) is not base_vars.get(n):
                        bad.add(n)
        fr.vars.clear()
        fr.vars.update(base_vars)
        for n in stored - set(pre):
            fr.vars[n] = Top('value of a loop-local variable after the loop', self.depth == 0)
        for n in tnames:
            fr.vars[n] = Top('loop variable after the loop', self.depth == 0)
        for n in accs:
            if n in bad:
                fr.vars[n] = self.unknown('loop-carried variable %s' % n)
                continue
            if flips[n]:
                # every iteration keeps or negates the variable
                e = self.fold_acc(0, flips[n], n) if not deltas[n] else None
                sg = self.parity_sign(e) if isinstance(e, Tensor) else None
                fr.vars[n] = self.unknown('loop-carried variable %s' % n) if sg is None else \
                    mul(self.to_tensor(pre[n]), scalar(sg, 'i'))
                continue
            fr.vars[n] = self.fold_acc(pre[n], deltas[n], n)
        for n in pre:
            if n not in accs and n in bad:
                fr.vars[n] = self.unknown('loop-carried variable %s' % n)
                fr.vars[n].fixed = self.depth == 0
        for l, n0 in lists.values():
            self.normalise_appended(l, n0)
        self.flush_logs()
        if st.orelse:
            self.exec_block(st.orelse)

    def force(self, v):
        if isinstance(v, LazyItem):
            return self.getitem(v.arr, v.idx)
        if isinstance(v, tuple):
            return tuple(self.force(x) for x in v)
        return v

    def acc_flipped(self, v, a):
        try:
            t = self.to_tensor(v)
        except Unknown:
            return False
        return not t.rank and t.scalar_poly() == {((a,),): Fraction(-1)}

    def acc_delta(self, v, a):
        try:
            t = self.to_tensor(v)
        except Unknown:
            return None
        if t.rank:
            return None
        p = dict(t.scalar_poly())
        one = ((a,),)
        if p.pop(one, None) != 1:
            return None
        for mono in p:
            for f in mono:
                if f[0] == a:
                    return None
        return scalar(p, t.kind)

    def fold_acc(self, pre, deltas, name):
        """pre + sum over binders of the deltas"""
        total = self.to_tensor(pre)
        for binders, guards, d in deltas:
            s = self.sum_over(binders, guards, d)
            if s is None:
                return self.unknown('sum over a guarded loop')
            total = add(total, s)
        return total

    def sum_over(self, binders, guards, t):
        """sum of a tensor over loop variables running over whole spaces; None if not expressible"""
        m = {}
        used = {}
        for key, val in guards:
            if key[0] != 'bit':
                return None
            bit = {(key[1],): Fraction(1)}
            t = mul(t, scalar(bit if val else poly.padd(poly.pconst(1), bit, -1), 'i'))
        for b in binders:
            sp = self.binder_space(b, t)
            if sp is None:
                return None
            n = used.get(sp, 0)
            used[sp] = n + 1
            m[b.var] = (sp + 1) * 1000 + 800 + n
        bound = set(m)
        for i in {i for p in t.blocks.values() for mono in p for f in mono for i in f[1:]}:
            if i in OPAQUE and any(v in bound for v in OPAQUE[i].t):
                d = OPAQUE[i]
                b = [b for b in binders if d.add(b.lo).key() == Dim({b.var: 1}).key()]
                if not b or NAMED_INFO[i][1] != self.binder_space(b[0], t):
                    return None
                m[i] = m[b[0].var]
        blocks = {}
        for key, p in t.blocks.items():
            r = {}
            for mono, c in p.items():
                q = {mono: c}
                present = {i for f in mono for i in f[1:]}
                for b in binders:
                    if not any(m.get(i) == m[b.var] for i in present):
                        ln = b.hi.add(b.lo, -1)
                        q = poly.pmul(q, self.dim_tensor(ln).scalar_poly())
                poly.padd_into(r, poly.pmap(q, lambda i: m.get(i, i)))
            blocks[key] = r
        return Tensor(t.axes, blocks, t.kind)

    def binder_space(self, b, t):
        """the space a binder covers completely"""
        ln = b.hi.add(b.lo, -1)
        if len(ln.t) == 1 and ln.c == 0:
            (s, c), = ln.t.items()
            if c == 1 and s >= 0:
                return s
        return None

    def scope_paths(self, binders, guards):
        """push a loop scope and enumerate the local decisions of its body"""
        sc = Scope(list(binders), list(guards))
        n = 0
        while True:
            sc.oracle.start()
            self.scopes.append(sc)
            d = len(self.scopes)
            yield 'path', sc
            while len(self.scopes) >= d:
                self.scopes.pop()
            n += 1
            if not sc.oracle.advance():
                return
            if n > MAX_PATHS:
                raise TooComplex('too many paths in a loop body')

    def scope_context(self, depth):
        """binders and guards of the scopes deeper than depth"""
        bs, gs = [], []
        for sc in self.scopes[depth:]:
            bs += sc.binders
            gs += sc.guards
            gs += sc.oracle.guards
        return bs, gs

    # ------------------------------------------------------------ logged writes

    def symbolic_index(self, idx):
        items = idx if isinstance(idx, tuple) else (idx,)
        return any(isinstance(x, (IndexOf,)) or (isinstance(x, Dim) and any(s < 0 for s in x.t)) for x in items)

    def write_index(self, arr, idx, v, op):
        root = arr.root()
        if root.origin:
            self.effect(root.origin, 'array element written')
        if isinstance(v, (Arr,)):
            v = v.read()
        items = idx if isinstance(idx, tuple) else (idx,)
        bs, gs = self.scope_context(root.depth)
        if isinstance(v, (int, float, Dim)):
            v = self.to_tensor(v)
        if root.logs is None:
            root.logs = []
        root.logs.append(Log(bs, gs, (arr, items), op, v, self.loc))
        if root not in self.logged:
            self.logged.append(root)
        if self.depth <= root.depth:
            self.flush_logs()

    logged = []

    def flush_logs(self):
        """turn complete logs of arrays whose loops have been left into values, when possible"""
        keep = []
        for root in self.logged:
            if self.depth > root.depth:
                keep.append(root)
                continue
            if root.logs:
                self.resolve_logs(root)
                if root.logs:
                    keep.append(root)
        self.logged = keep

    def resolve_logs(self, root):
        if getattr(self, 'keep_logs', False) and any(isinstance(x, IndexOf) for l in root.logs for x in l.index[1]):
            return
        for l in root.logs:
            arr, items = l.index
            try:
                if isinstance(root.val, Top):
                    raise Unknown(root.val.why)
                if not isinstance(l.value, Tensor):
                    raise Unknown(getattr(l.value, 'why', 'logged value'))
                self.apply_log(arr, items, l)
            except Unknown as e:
                self.loc = l.loc
                self.unknown('element-wise loop: %s' % e)
                root.val = Top('element-wise loop: %s' % e)
        root.logs = None

    def apply_log(self, arr, items, l):
        if l.guards:
            raise Unknown('guarded element write')
        cur = arr.read()
        if not isinstance(cur, Tensor):
            raise Unknown('array')
        if items == (Ellipsis,):
            items = (slice(None),) * cur.rank
        if len(items) < cur.rank:
            items = items + (slice(None),) * (cur.rank - len(items))
        if len(items) > cur.rank:
            raise AbsError('too many indices', l.loc)
        vars_ = {}
        sel = []
        m = {}
        outpos = 0
        free = {}
        for ax, x in enumerate(items):
            if isinstance(x, Dim) and len(x.t) >= 1 and any(s < 0 for s in x.t):
                neg_ = [s for s in x.t if s < 0]
                if len(neg_) != 1 or x.t[neg_[0]] != 1 or neg_[0] in vars_:
                    raise Unknown('index form')
                b = [b for b in l.binders if b.var == neg_[0]]
                if not b:
                    raise Unknown('index of an outer loop')
                off = x.add(Dim({neg_[0]: 1}), -1)
                lo, hi = b[0].lo.add(off), b[0].hi.add(off)
                segs = self.seg_range(cur.axes[ax], lo, hi)
                if segs is None:
                    raise Unknown('partial range')
                if len(segs) != 1:
                    raise Unknown('loop over several segments')
                vars_[neg_[0]] = ax
                m[neg_[0]] = ax
                sel.append(segs)
            elif isinstance(x, slice) and x == slice(None):
                sel.append(list(range(len(cur.axes[ax]))))
                free[outpos] = ax
                outpos += 1
            elif isinstance(x, slice):
                segs, _ = self.slice_segs(cur.axes[ax], x)
                sel.append(segs)
                free[outpos] = ax
                outpos += 1
            elif isinstance(x, int) and all(s == ONE for s in cur.axes[ax]):
                k = x if x >= 0 else x + len(cur.axes[ax])
                sel.append([k])
            else:
                raise Unknown('index')
        extra = [b for b in l.binders if b.var not in vars_]
        val = l.value
        if extra:
            if l.op != '+=':
                raise Unknown('element overwritten in a loop')
            val = self.sum_over(extra, [], val)
            if val is None:
                raise Unknown('sum')
        vaxes = tuple(tuple(cur.axes[free[k]][s] for s in sel[free[k]]) for k in sorted(free))
        val = expand(val, vaxes)
        if KINDS[val.kind] > KINDS[cur.kind]:
            val = self.lose(val, cur.kind)
        # build full-rank contribution
        blocks = {}
        for key in itertools.product(*sel):
            vk = tuple(sel[free[k]].index(key[free[k]]) for k in sorted(free))
            p = val.blocks.get(vk, {})
            p = poly.pmap(p, lambda i: m[i] if i in m else (free[i] if 0 <= i < 1000 else i))
            blocks[key] = p
        new = {k: dict(p) for k, p in cur.blocks.items()}
        for k, p in blocks.items():
            if l.op == '=':
                new[k] = p
            else:
                new[k] = poly.padd(new.get(k, {}), p)
        t = Tensor(cur.axes, new, cur.kind)
        if arr.base is None:
            arr.val = t
        else:
            r = arr.root()
            r.val = self.put_through(arr, t)

    def lose(self, val, kind):
        self.loss_events.append((self.loc, val.kind, kind))
        return lossy('real', val, kind)

    def put_through(self, arr, t):
        chain = []
        a = arr
        while a.base is not None:
            chain.append(a)
            a = a.base
        vals = [a.val]
        for v in reversed(chain):
            vals.append(v.get(vals[-1]))
        new = t
        for v, bv in zip(chain, reversed(vals[:-1])):
            new = v.put(bv, new)
        return new

    def write(self, arr, t):
        """replace the content of an array (or of the region a view denotes)"""
        root = arr.root()
        old = root.val
        self.write_value(arr, root, t)
        if root.origin and not (isinstance(old, Tensor) and isinstance(root.val, Tensor) and root.logs is None
                                and old.axes == root.val.axes and old.blocks == root.val.blocks):
            self.effect(root.origin, 'array modified in place')

    def write_value(self, arr, root, t):
        if root.logs:
            self.unknown('mixed element-wise and whole-array writes')
            root.val = Top('mixed writes')
            root.logs = None
            return
        if isinstance(root.val, Top):
            return
        if isinstance(t, Top):
            root.val = t
            return
        if arr.base is None:
            arr.val = t
        else:
            root.val = self.put_through(arr, t)

    def inplace(self, cur, op, v):
        """cur op= v; returns the object the name is bound to afterwards"""
        if isinstance(cur, Arr):
            root = cur.root()
            if self.depth > root.depth:
                if op in ('Add', 'Sub'):
                    val = self.unary('USub', v) if op == 'Sub' else v
                    self.write_index(cur, (Ellipsis,), val, '+=')
                else:
                    self.write(cur, self.unknown('in-place operation in a symbolic loop'))
                return cur
            r = cur.read()
            if isinstance(r, Tensor):
                try:
                    t = self.binop(op, r, v)
                    if isinstance(t, Top):
                        self.write(cur, t)
                        return cur
                    t = self.to_tensor(t)
                except Unknown as e:
                    self.write(cur, self.unknown(str(e)))
                    return cur
                if t.axes != r.axes:
                    raise AbsError('in-place operation changes the shape from (%s) to (%s)' % (
                        ', '.join(axis_name(a) for a in r.axes), ', '.join(axis_name(a) for a in t.axes)), self.loc)
                if KINDS[t.kind] > KINDS[r.kind]:
                    vt = None
                    try:
                        vt = self.to_tensor(v)
                    except Unknown:
                        pass
                    if vt is not None and not vt.blocks:
                        t = Tensor(t.axes, t.blocks, r.kind)
                    else:
                        raise AbsError('in-place operation would cast %s values to a %s array' % (
                            KNAME[t.kind], KNAME[r.kind]), self.loc)
                self.write(cur, t)
            else:
                res = self.array_binop(op, cur, v)
                if root.origin:
                    self.effect(root.origin, 'array modified in place')
                root.val = res.read() if isinstance(res, Arr) else (res if isinstance(res, Top) else Top('in-place'))
            return cur
        if isinstance(cur, PList) and op == 'Add':
            self.list_extend(cur, v)
            return cur
        return self.binop(op, cur, v)

    def list_touch(self, l, what):
        if l.origin:
            self.effect(l.origin, what)

    def list_append(self, l, v):
        self.list_touch(l, 'list modified')
        bs, gs = self.scope_context(l.depth)
        l.entries.append(Entry(v, bs, gs))

    def list_extend(self, l, v):
        self.list_touch(l, 'list modified')
        for g in self.iterate(v):
            bs, gs = self.scope_context(l.depth)
            if isinstance(g, Gen):
                l.entries.append(Entry(self.force(g.value), bs + list(g.binders), gs + list(g.guards)))
            else:
                l.entries.append(Entry(g, bs, gs))

    # ------------------------------------------------------------ expressions

    def eval(self, node):
        m = getattr(self, 'ex_' + type(node).__name__, None)
        if m is None:
            return self.unknown('expression %s' % type(node).__name__)
        try:
            return m(node)
        except Unknown as e:
            f = node.func if isinstance(node, ast.Call) else None
            if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                b = f.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    self.taint(self.load(b.id, True))
            return self.unknown(str(e))
        except SpaceError as e:
            raise AbsError(str(e), (self.loc[0], self.loc[1], getattr(node, 'lineno', self.loc[2])))

    def evaluate(self, text, **values):
        """value of an expression over the given values"""
        fr = Frame(self.frame.module, parent=None)
        fr.vars.update(values)
        self.frames.append(fr)
        try:
            return self.eval(ast.parse(text, mode='eval').body)
        finally:
            self.frames.pop()

    def ex_Constant(self, n):
        if isinstance(n.value, complex):
            return self.unknown('complex literal')
        return n.value

    def ex_Name(self, n):
        return self.load(n.id)

    def ex_Tuple(self, n):
        return tuple(self.eval_elts(n.elts))

    def ex_List(self, n):
        if not any(isinstance(e, ast.Starred) for e in n.elts):
            return self.plist(self.eval_elts(n.elts))
        l = self.plist()
        for e in n.elts:
            if isinstance(e, ast.Starred):
                self.list_extend(l, self.eval(e.value))
            else:
                self.list_append(l, self.eval(e))
        return l

    def ex_Set(self, n):
        return tuple(self.eval_elts(n.elts))

    def eval_elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out += self.concrete_iter(self.eval(e.value))
            else:
                out.append(self.eval(e))
        return out

    def concrete_iter(self, v, n=None):
        if isinstance(v, MaybeTuple):
            return v.items(self)
        if isinstance(v, Arr):
            t = v.read()
            if isinstance(t, Tensor) and t.rank:
                ax = t.axes[0]
                if all(s == ONE for s in ax):
                    return [self.getitem(v, k) for k in range(len(ax))]
            if hasattr(t, 'sa_elems'):
                return t.sa_elems(self)
            raise Unknown('iteration over an array')
        g = self.iterate(v)
        if any(isinstance(x, Gen) for x in g):
            raise Unknown('symbolic iterable')
        return g

    def ex_Dict(self, n):
        d = PDict(depth=self.depth)
        if self.mark_origin:
            d.origin = self.mark_origin
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v)
                if not isinstance(o, PDict):
                    raise Unknown('dict expansion')
                d.d.update(o.d)
            else:
                d.d[self.dkey(self.eval(k))] = self.eval(v)
        return d

    def dkey(self, k):
        if isinstance(k, (str, int, float, bool, type(None), Dim, DType, Fraction)):
            return k
        if isinstance(k, tuple):
            return tuple(self.dkey(x) for x in k)
        if isinstance(k, (Func, Cls, Obj, Ext)):
            return k
        raise Unknown('dictionary key')

    def undkey(self, k):
        return k

    def ex_JoinedStr(self, n):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.eval(v.value)
                if isinstance(x, (str, int)):
                    out.append(str(x))
                else:
                    return Top('f-string')
        return ''.join(out)

    def ex_Starred(self, n):
        return self.eval(n.value)

    def ex_Lambda(self, n):
        fr = self.frame
        f = self.make_func(n, '<lambda>')
        if fr.func is not None:
            f.closure = fr
        return f

    def ex_IfExp(self, n):
        if self.truth(self.eval(n.test)):
            return self.eval(n.body)
        return self.eval(n.orelse)

    def ex_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v)
        return v

    def ex_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        v = None
        for k, e in enumerate(n.values):
            v = self.eval(e)
            if k == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, (Cond, Top, Maybe)) else False
            if not isand and t:
                return v if not isinstance(v, (Cond, Top)) else True
        return v

    def ex_UnaryOp(self, n):
        v = self.eval(n.operand)
        return self.unary(type(n.op).__name__, v)

    def unary(self, op, v):
        if isinstance(v, Top):
            return Top(v.why)
        if op == 'Not':
            if isinstance(v, Cond):
                return Cond(v.key, not v.neg)
            return not self.truth(v)
        if op == 'USub':
            if isinstance(v, (int, float, Fraction)):
                return -v
            if isinstance(v, Dim):
                return v.mul(-1).simp()
            if isinstance(v, Arr) and hasattr(v.read(), 'sa_array_binop'):
                return self.binop('Mult', -1, v)
            if hasattr(v, 'sa_neg'):
                return v.sa_neg(self)
            if isinstance(v, Arr) and not isinstance(v.read(), (Tensor, Top)):
                return self.array_unary(op, v)
            return self.wrap(neg(self.to_tensor(v)))
        if op == 'UAdd':
            return v
        if op == 'Invert':
            if isinstance(v, Arr):
                r = v.read()
                if isinstance(r, Mask):
                    return Arr(r.invert(), depth=self.depth)
                if hasattr(r, 'sa_fn'):
                    return r.sa_fn(self, 'invert')
            if isinstance(v, bool):
                return ~v
            if isinstance(v, int):
                return ~v
        raise Unknown('unary %s' % op)

    def array_unary(self, op, v):
        raise Unknown('array domain')

    def ex_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Top):
            return Top(a.why)
        if isinstance(b, Top):
            return Top(b.why)
        if isinstance(a, Maybe):
            a = self.unmaybe(a)
        if isinstance(b, Maybe):
            b = self.unmaybe(b)
        for x, y, r in ((a, b, False), (b, a, True)):
            if hasattr(x, 'sa_binop'):
                res = x.sa_binop(self, op, y, r)
                if res is not NotImplemented:
                    return res
        num = (int, float, Fraction)
        if isinstance(a, num) and isinstance(b, num):
            return self.num_binop(op, a, b)
        if isinstance(a, str) or isinstance(b, str):
            if op == 'Add' and isinstance(a, str) and isinstance(b, str):
                return a + b
            if op == 'Mult' and isinstance(b, int):
                return a * b
            if op == 'Mod' and isinstance(a, str):
                vals = b if isinstance(b, tuple) else (b,)
                if all(isinstance(x, (str, int, float)) for x in vals):
                    return a % b
            raise Unknown('string operation')
        if isinstance(a, (PList, tuple)) or isinstance(b, (PList, tuple)):
            r = self.seq_binop(op, a, b)
            if r is not NotImplemented:
                return r
        if isinstance(a, (Dim, int)) and isinstance(b, (Dim, int)):
            return self.dim_binop(op, a, b)
        if isinstance(a, PDict) and isinstance(b, PDict) and op == 'BitOr':
            d = dict(a.d)
            d.update(b.d)
            return PDict(d, depth=self.depth)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.array_binop(op, a, b)
        if isinstance(a, Obj) and isinstance(a.cls, Cls) or isinstance(b, Obj) and isinstance(b.cls, Cls):
            return self.obj_binop(op, a, b)
        if isinstance(a, Cond) or isinstance(b, Cond):
            # a truth value used as a number or bit
            return self.binop(op, self.truth(a) if isinstance(a, Cond) else a, self.truth(b) if isinstance(b, Cond) else b)
        return self.tensor_binop(op, a, b)

    DUNDER = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'), 'Mult': ('__mul__', '__rmul__'),
              'Div': ('__truediv__', '__rtruediv__'), 'MatMult': ('__matmul__', '__rmatmul__')}

    def obj_binop(self, op, a, b):
        l, r = self.DUNDER.get(op, (None, None))
        if l and isinstance(a, Obj) and isinstance(a.cls, Cls) and a.cls.lookup(l):
            return self.call(self.getattr(a, l), [b], {})
        if r and isinstance(b, Obj) and isinstance(b.cls, Cls) and b.cls.lookup(r):
            return self.call(self.getattr(b, r), [a], {})
        raise Unknown('operator on objects')

    def array_binop(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Arr):
                t = x.read()
                if isinstance(t, Mask):
                    return self.mask_binop(op, a, b)
                if isinstance(t, Top):
                    return Top(t.why)
                if not isinstance(t, Tensor) and hasattr(t, 'sa_array_binop'):
                    return t.sa_array_binop(self, op, a, b)
        return self.tensor_binop(op, a, b)

    def mask_binop(self, op, a, b):
        ra = a.read() if isinstance(a, Arr) else None
        rb = b.read() if isinstance(b, Arr) else None
        if isinstance(ra, Mask) and isinstance(rb, Mask) and op in ('BitAnd', 'BitOr', 'BitXor') and ra.axes == rb.axes:
            f = {'BitAnd': lambda x, y: x and y, 'BitOr': lambda x, y: x or y, 'BitXor': lambda x, y: x != y}[op]
            return Arr(Mask(ra.axes, {k: f(ra.vals[k], rb.vals[k]) for k in ra.vals}), depth=self.depth)
        if op in ('Mult', 'Pow', 'Div', 'MatMult') or not (isinstance(ra, Mask) and isinstance(rb, Mask)) \
                and op in ('Add', 'Sub'):
            return self.tensor_binop(op, a, b)
        raise Unknown('mask operation')

    def num_binop(self, op, a, b):
        try:
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'Mult':
                return a * b
            if op == 'Div':
                return a / b
            if op == 'FloorDiv':
                return a // b
            if op == 'Mod':
                return a % b
            if op == 'Pow':
                return a ** b
            if op == 'BitAnd':
                return a & b
            if op == 'BitOr':
                return a | b
            if op == 'BitXor':
                return a ^ b
            if op == 'LShift':
                return a << b
            if op == 'RShift':
                return a >> b
        except ZeroDivisionError:
            raise AbsError('division by zero', self.loc)
        except (TypeError, OverflowError) as e:
            raise Unknown(str(e))
        raise Unknown('number operation %s' % op)

    def seq_binop(self, op, a, b):
        if op == 'Add':
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, PList) and isinstance(b, PList):
                r = self.plist()
                r.entries = list(a.entries) + list(b.entries)
                return r
            if isinstance(a, (PList, tuple)) and isinstance(b, Arr) or isinstance(b, (PList, tuple)) and isinstance(a, Arr):
                return NotImplemented
            if isinstance(a, (PList, tuple)) and isinstance(b, (PList, tuple)):
                raise Raised('TypeError', self.loc)
        if op == 'Mult':
            if isinstance(b, (PList, tuple)):
                a, b = b, a
            if isinstance(b, int) and not isinstance(b, bool):
                if isinstance(a, tuple):
                    return a * b
                r = self.plist()
                r.entries = list(a.entries) * b
                return r
            if isinstance(b, Dim) and isinstance(a, PList) and a.concrete() and len(a.entries) == 1:
                r = self.plist()
                v = self.fresh_var('r')
                r.entries = [Entry(a.entries[0].value, [Binder(v, 0, b)], [])]
                return r
        if isinstance(a, (Arr, Tensor)) or isinstance(b, (Arr, Tensor)):
            return NotImplemented
        raise Unknown('sequence operation')

    def dim_binop(self, op, a, b):
        A, B = Dim.of(a), Dim.of(b)
        if op == 'Add':
            return A.add(B).simp()
        if op == 'Sub':
            return A.add(B, -1).simp()
        if op == 'Mult':
            if not B.t:
                return A.mul(B.c).simp()
            if not A.t:
                return B.mul(A.c).simp()
            return self.tensor_binop(op, a, b)
        if op == 'FloorDiv' and not B.t:
            return A.floordiv(B.c)
        if op == 'Mod' and not B.t:
            return A.mod(B.c)
        return self.tensor_binop(op, a, b)

    def tensor_binop(self, op, a, b):
        a = self.to_tensor(a)
        b = self.to_tensor(b)
        self.array_ops += 1
        if op == 'Add':
            return self.wrap(add(a, b))
        if op == 'Sub':
            return self.wrap(add(a, b, -1))
        if op == 'Mult':
            return self.wrap(mul(a, b))
        if op == 'Div':
            return self.wrap(self.tensor_div(a, b))
        if op in ('FloorDiv', 'Mod', 'Pow', 'BitAnd', 'BitXor'):
            ca, cb = self.const_of(a), self.const_of(b)
            if ca is not None and cb is not None and ca.denominator == cb.denominator == 1 and a.kind in 'bi' and b.kind in 'bi':
                return self.num_binop(op, int(ca), int(cb))
        if op == 'Mod' and self.const_of(b) == 2:
            sg = self.parity_sign(a)
            if sg is not None:
                return scalar(poly.padd(poly.pconst(Fraction(1, 2)), sg, Fraction(-1, 2)), 'i')
        if op == 'BitAnd' and (self.const_of(b) == 1 or self.const_of(a) == 1):
            return self.tensor_binop('Mod', a if self.const_of(b) == 1 else b, const(2))
        if op == 'Pow' and self.const_of(a) == -1:
            sg = self.parity_sign(b)
            if sg is not None:
                return scalar(sg, a.kind)
        if op == 'Pow':
            c = self.const_of(b)
            if c is not None and c.denominator == 1 and 0 <= c <= 6:
                r = const(1)
                for _ in range(int(c)):
                    r = mul(r, a)
                return self.wrap(expand(r, a.axes))
            raise Unknown('power')
        if op == 'MatMult':
            return self.wrap(self.matmul(a, b))
        raise Unknown('array operation %s' % op)

    def parity_sign(self, t):
        """(-1)**t for an integer-valued scalar: a product of sign variables, one per odd term"""
        if t.rank or t.kind not in ('b', 'i'):
            return None
        sign, vs = 1, set()
        for m, c in t.scalar_poly().items():
            if c.denominator != 1:
                if len(m) == 1 and m[0][0] == poly.SGN:
                    return None
                return None
            if c % 2 == 0:
                continue
            if not m:
                sign = -sign
            elif any(f[0] == poly.SGN for f in m):
                return None
            else:
                vs ^= {named('par:' + poly.show_mono(m))}
        k = ((poly.SGN,) + tuple(sorted(vs)),) if vs else ()
        return {k: Fraction(sign)}

    def sign_compare(self, op, p):
        """comparison with zero of a polynomial c0 + c1 * (sign variable)"""
        mons = [m for m in p if m]
        if len(mons) != 1 or len(mons[0]) != 1 or mons[0][0][0] != poly.SGN:
            return None
        c0, c1 = p.get((), Fraction(0)), p[mons[0]]
        r = []
        for x in (c0 + c1, c0 - c1):
            r.append({'Eq': x == 0, 'NotEq': x != 0, 'Lt': x < 0, 'LtE': x <= 0, 'Gt': x > 0, 'GtE': x >= 0}[op])
        if r[0] == r[1]:
            return r[0]
        return Cond(('sgn', mons[0][0][1:]), not r[0])

    def bit_compare(self, op, p):
        """comparison with zero of c0 + c1 * (element known to be zero or one)"""
        mons = [m for m in p if m]
        if len(mons) != 1 or len(mons[0]) != 1 or mons[0][0][0] not in self.bit_atoms:
            return None
        if any(i >= 0 for i in mons[0][0][1:]):
            return None         # a sum of such elements
        c0, c1 = p.get((), Fraction(0)), p[mons[0]]
        r = []
        for x in (c0 + c1, c0):
            r.append({'Eq': x == 0, 'NotEq': x != 0, 'Lt': x < 0, 'LtE': x <= 0, 'Gt': x > 0, 'GtE': x >= 0}[op])
        if r[0] == r[1]:
            return r[0]
        return Cond(('bit', mons[0][0]), not r[0])

    def const_of(self, t):
        if t.rank:
            return None
        p = t.scalar_poly()
        if not p:
            return Fraction(0)
        if set(p) == {()}:
            return p[()]
        return None

    def tensor_div(self, a, b):
        c = self.const_of(b)
        if c is not None:
            if c == 0:
                raise AbsError('division by zero', self.loc)
            return scale(a, Fraction(1) / c if a.kind == 'c' else Fraction(1) / c)
        return mul(a, self.reciprocal(b))

    def reciprocal(self, b):
        blocks = {}
        for key in itertools.product(*[range(len(x)) for x in b.axes]):
            p = b.blocks.get(key, {})
            if not p:
                raise AbsError('division by zero', self.loc)
            c = p[min(p)]
            blocks[key] = poly.pscale(T.opaque('1/', poly.pscale(p, 1 / c)), 1 / c)
        return Tensor(b.axes, blocks, kjoin(b.kind, 'f'))

    def matmul(self, a, b):
        if a.rank == 2 and b.rank == 2:
            return einsum('ij,jk->ik', [a, b])
        if a.rank == 1 and b.rank == 1:
            return einsum('i,i->', [a, b])
        if a.rank == 2 and b.rank == 1:
            return einsum('ij,j->i', [a, b])
        if a.rank == 1 and b.rank == 2:
            return einsum('i,ij->j', [a, b])
        raise Unknown('matmul of rank %d and %d' % (a.rank, b.rank))

    # ------------------------------------------------------------ comparisons

    def ex_Compare(self, n):
        left = self.eval(n.left)
        res = None
        for k, (op, rn) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(rn)
            r = self.compare(type(op).__name__, left, right)
            if len(n.ops) == 1:
                return r
            if not self.truth(r):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            r = self.identical(a, b)
            if r is None:
                return self.unknown_cond('is')
            if isinstance(r, Cond):
                return r if op == 'Is' else Cond(r.key, not r.neg)
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            if isinstance(r, Cond):
                return r if op == 'In' else Cond(r.key, not r.neg)
            return r if op == 'In' else not r
        if isinstance(a, Top) or isinstance(b, Top):
            return self.unknown_cond('compare')
        if isinstance(a, Maybe):
            a = self.unmaybe(a)
        if isinstance(b, Maybe):
            b = self.unmaybe(b)
        for x, y, r in ((a, b, False), (b, a, True)):
            if hasattr(x, 'sa_compare'):
                res = x.sa_compare(self, op, y, r)
                if res is not NotImplemented:
                    return res
        num = (int, float, Fraction)
        if isinstance(a, num) and isinstance(b, num) or isinstance(a, str) and isinstance(b, str):
            return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if isinstance(a, (Dim, int)) and isinstance(b, (Dim, int)):
            return self.dim_compare(op, a, b)
        if isinstance(a, (PList,)) and isinstance(b, (PList,)):
            a = tuple(a.values()) if a.concrete() else a
            b = tuple(b.values()) if b.concrete() else b
            if isinstance(a, PList) or isinstance(b, PList):
                return self.unknown_cond('list')
        if isinstance(a, tuple) and isinstance(b, tuple) and op in ('Eq', 'NotEq'):
            if len(a) != len(b):
                return op == 'NotEq'
            conds = []
            for x, y in zip(a, b):
                r = self.compare('Eq', x, y)
                if r is False:
                    return op == 'NotEq'
                if r is not True:
                    conds.append(r)
            if not conds:
                return op == 'Eq'
            if len(conds) == 1 and isinstance(conds[0], Cond):
                return conds[0] if op == 'Eq' else Cond(conds[0].key, not conds[0].neg)
            if all(isinstance(c, Cond) and c.key[0] != '?' for c in conds):
                for c in conds:
                    if not self.truth(c):
                        return op == 'NotEq'
                return op == 'Eq'
            return self.unknown_cond('tuple')
        if isinstance(a, Arr) or isinstance(b, Arr):
            r = self.array_compare(op, a, b)
            if r is not None:
                return r
            return Top('array comparison')
        if op in ('Eq', 'NotEq') and (isinstance(a, DType) or isinstance(b, DType)):
            from .npmodel import to_dtype
            try:
                r = to_dtype(self, a, 'f') == to_dtype(self, b, 'f')
            except Unknown:
                return self.unknown_cond('dtype')
            return r if op == 'Eq' else not r
        if op in ('Eq', 'NotEq'):
            if isinstance(a, Obj) and isinstance(a.cls, Cls) and a.cls.lookup('__eq__'):
                r = self.call(self.getattr(a, '__eq__'), [b], {})
                if op == 'NotEq':
                    return self.unary('Not', r)
                return r
            if a is None or b is None or isinstance(a, (str, DType, bool, Func, Cls, Ext)) or isinstance(b, (str, DType, bool, Func, Cls, Ext)):
                r = (a == b)
                return r if op == 'Eq' else not r
            if isinstance(a, Obj) or isinstance(b, Obj):
                r = a is b
                return r if op == 'Eq' else not r
        if isinstance(a, (Tensor,) + num + (Dim,)) and isinstance(b, (Tensor,) + num + (Dim,)):
            d = add(self.to_tensor(a), self.to_tensor(b), -1)
            c = self.const_of(d)
            if c is not None:
                return {'Eq': c == 0, 'NotEq': c != 0, 'Lt': c < 0, 'LtE': c <= 0, 'Gt': c > 0, 'GtE': c >= 0}[op]
            if not d.rank:
                r = self.sign_compare(op, d.scalar_poly())
                if r is None:
                    r = self.bit_compare(op, d.scalar_poly())
                if r is not None:
                    return r
                sz = self.tensor_dim(d.scalar_poly())
                if sz is not None:
                    return self.dim_compare(op, sz, 0)
            if op in ('Eq', 'NotEq'):
                sg = self.parity_sign(d)
                if sg and () not in sg:
                    # an odd number is not zero
                    (m, c), = sg.items()
                    if self.truth(Cond(('sgn', m[0][1:]), c > 0)):
                        return op == 'NotEq'
            if not d.rank and self.vanishing(d.scalar_poly()):
                return self.unknown_cond('a whole array compared with zero')
            key = ('cmp', poly.show(d.scalar_poly()))
            if not d.rank:
                for o in '=<>':
                    self.cmp_polys[key + (o,)] = d.scalar_poly()
            if op in ('Eq', 'NotEq'):
                return Cond(key + ('=',), op == 'NotEq')
            if op in ('Lt', 'GtE'):
                return Cond(key + ('<',), op == 'GtE')
            return Cond(key + ('>',), op == 'LtE')
        return self.unknown_cond('compare')

    def array_compare(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Arr) and not isinstance(x.read(), (Tensor, Top)) and hasattr(x.read(), 'sa_array_compare'):
                return x.read().sa_array_compare(self, op, a, b)
        # per-segment constant vectors give masks
        try:
            ta, tb = self.to_tensor(a), self.to_tensor(b)
        except Unknown:
            return None
        d = add(ta, tb, -1)
        vals = {}
        for key in itertools.product(*[range(len(x)) for x in d.axes]):
            p = d.blocks.get(key, {})
            if not p:
                c = Fraction(0)
            elif set(p) == {()}:
                c = p[()]
            else:
                return self.bits_compare(op, d)
            vals[key] = holds(op, c)
        return Arr(Mask(d.axes, vals), depth=self.depth)

    def bits_compare(self, op, d):
        """comparison of zero-one arrays with fixed numbers, as a zero-one array"""
        blocks = {}
        for key in itertools.product(*[range(len(x)) for x in d.axes]):
            p = d.blocks.get(key, {})
            c = p.get((), Fraction(0))
            bits = [m for m in p if m]
            if not bits:
                blocks[key] = poly.pconst(int(holds(op, c)))
                continue
            if len(bits) != 1 or len(bits[0]) != 1 or bits[0][0][0] not in self.bit_atoms:
                return None
            if any(i >= d.rank for i in bits[0][0][1:]):
                return None
            no, yes = int(holds(op, c)), int(holds(op, c + p[bits[0]]))
            blocks[key] = poly.padd(poly.pconst(no), {bits[0]: Fraction(yes - no)})
        return Arr(Tensor(d.axes, {k: {m: c for m, c in p.items() if c} for k, p in blocks.items()}, 'b'), depth=self.depth)

    def dim_compare(self, op, a, b):
        A, B = Dim.of(a), Dim.of(b)
        d = B.add(A, -1)              # b - a
        if op in ('Eq', 'NotEq'):
            r = self.dim_zero(d)
        elif op == 'Lt':
            return self.dim_pos(d)
        elif op == 'Gt':
            return self.dim_pos(d.mul(-1))
        elif op == 'LtE':
            return self.unary('Not', self.dim_pos(d.mul(-1)))
        elif op == 'GtE':
            return self.unary('Not', self.dim_pos(d))
        return r if op == 'Eq' else self.unary('Not', r)

    def identical(self, a, b):
        if isinstance(a, Maybe) and b is None:
            return Cond(a.key, True)
        if isinstance(b, Maybe) and a is None:
            return Cond(b.key, True)
        if isinstance(a, Top) or isinstance(b, Top):
            return None
        if a is None or b is None:
            return a is b
        if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)):
            return type(a) is type(b) and a == b
        if isinstance(a, (Ext, DType)):
            return a == b
        if isinstance(a, Dim) or isinstance(b, Dim):
            return None
        return a is b

    def contains(self, c, x):
        if isinstance(c, PDict):
            try:
                return self.dkey(x) in c.d
            except Unknown:
                return self.unknown_cond('in')
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, (PList, tuple)):
            if isinstance(c, PList) and not c.concrete():
                h = self.list_index(c, x)
                return Cond(h[1])
            vals = c.values() if isinstance(c, PList) else c
            unk = False
            for v in vals:
                r = self.compare('Eq', v, x)
                if r is True:
                    return True
                if r is not False:
                    unk = True
            if not unk:
                return False
        if isinstance(c, range) and isinstance(x, int):
            return x in c
        return self.unknown_cond('in')

    def list_index(self, l, x):
        """(IndexOf value, key of the condition that it is in the list)"""
        if x is None or isinstance(x, tuple) and None in [y for y in x if y is None]:
            self.compare_none(l, x)
        if isinstance(x, (int, float, Dim, str, Tensor)):
            return IndexOf(l, x), self.unknown_cond('in').key
        return IndexOf(l, x), ('inlist', id(l), self.value_key(x))

    def compare_none(self, l, x):
        """the search compares the listed objects with None: do they accept that?"""
        for e in l.entries:
            v = e.value
            for a, b in zip(v, x) if isinstance(v, tuple) and isinstance(x, tuple) else ((v, x),):
                f = a.cls.lookup('__eq__') if b is None and isinstance(a, Obj) and isinstance(a.cls, Cls) else None
                if isinstance(f, Func):
                    o = Obj(a.cls, {})
                    o.getter = lambda I, o, name: Top('attribute ' + name)
                    self.call(f, [o, None], {})

    def value_key(self, x):
        if hasattr(x, 'key'):
            k = x.key
            return k() if callable(k) else k
        if isinstance(x, tuple):
            return tuple(self.value_key(y) for y in x)
        return repr(x)

    # ------------------------------------------------------------ maybe-None values

    def unmaybe(self, v):
        """use of a possibly-None value where None would be an error"""
        k = self.known_guard(v.key)
        if k is True:
            return v.value
        if k is False:
            raise Raised('TypeError', self.loc, 'None used as a value')
        if self.decide(v.key):
            return v.value
        raise Raised('TypeError', self.loc, 'possibly None value used without a check')

    # ------------------------------------------------------------ subscripts

    def eval_index(self, node):
        if isinstance(node, ast.Tuple):
            return tuple(self.eval_index(e) for e in node.elts)
        if isinstance(node, ast.Slice):
            f = lambda x: None if x is None else self.eval(x)
            return slice(f(node.lower), f(node.upper), f(node.step))
        return self.eval(node)

    def ex_Subscript(self, n):
        o = self.eval(n.value)
        idx = self.eval_index(n.slice)
        return self.getitem(o, idx)

    def ex_Slice(self, n):
        return self.eval_index(n)

    def getitem(self, o, idx):
        if isinstance(o, Top):
            return Top(o.why)
        if isinstance(o, Maybe):
            o = self.unmaybe(o)
        if isinstance(idx, Top):
            raise Unknown(idx.why)
        if hasattr(o, 'sa_getitem'):
            return o.sa_getitem(self, idx)
        if isinstance(o, MaybeTuple):
            return o.items(self)[idx]
        if isinstance(o, (tuple, str)):
            if isinstance(idx, int):
                try:
                    return o[idx]
                except IndexError:
                    raise Raised('IndexError', self.loc)
            if isinstance(idx, slice):
                return o[idx]
            raise Unknown('sequence index')
        if isinstance(o, PList):
            return self.list_getitem(o, idx)
        if isinstance(o, PDict):
            k = self.dkey(idx)
            if k not in o.d:
                raise Raised('KeyError', self.loc)
            return o.d[k]
        if isinstance(o, range):
            return o[idx]
        if isinstance(o, Arr):
            return self.arr_getitem(o, idx)
        if isinstance(o, Obj) and isinstance(o.cls, Cls) and o.cls.lookup('__getitem__'):
            return self.call(self.getattr(o, '__getitem__'), [idx], {})
        if isinstance(o, SymRange) and isinstance(idx, (int, Dim)):
            return o.lo.add(idx).simp()
        raise Unknown('subscript of %r' % (o,))

    def list_getitem(self, o, idx):
        if isinstance(idx, int) and not isinstance(idx, bool):
            if o.concrete():
                if -len(o.entries) <= idx < len(o.entries):
                    return o.entries[idx].value
                raise Raised('IndexError', self.loc)
            if 0 <= idx < len(o.entries) and all(not e.binders and not e.guards for e in o.entries[:idx + 1]):
                return o.entries[idx].value
            raise Unknown('list element')
        if isinstance(idx, slice) and o.concrete():
            r = self.plist()
            try:
                r.entries = o.entries[idx]
            except TypeError:
                raise Unknown('list slice')
            return r
        if isinstance(idx, Dim) and len(o.entries) == 1 and len(o.entries[0].binders) == 1 and not o.entries[0].guards:
            e = o.entries[0]
            b = e.binders[0]
            if Dim.of(b.lo) == 0 and idx.c == 0 and list(idx.t.values()) == [1] and next(iter(idx.t)) < 0 and \
                    self.dim_pos(Dim.of(b.hi).add(idx, -1)) is True and self.dim_pos(idx.add(1)) is True:
                return self.subst_value(e.value, {b.var: next(iter(idx.t))})
        if isinstance(idx, Dim) and all(not e.guards and len(e.binders) < 2 for e in o.entries):
            return self.list_position(o, idx)
        if isinstance(idx, slice) and idx.step in (None, 1):
            return self.list_slice(o, idx.start, idx.stop)
        raise Unknown('list index')

    def list_position(self, o, idx):
        """element of a list of contiguous ranges at a symbolic position, one case per range"""
        lens = [Dim.of(e.binders[0].hi).add(e.binders[0].lo, -1) if e.binders else Dim(None, 1) for e in o.entries]
        total = Dim()
        for n in lens:
            total = total.add(n)
        if self.dim_nonneg(idx) is not True or self.dim_nonneg(total.add(idx, -1).add(-1)) is not True:
            raise Unknown('list index')
        off = Dim()
        for k, (e, n) in enumerate(zip(o.entries, lens)):
            if k == len(lens) - 1 or self.truth(self.dim_pos(off.add(n).add(idx, -1))):
                if not e.binders or isinstance(e.value, (bool, int, float, Fraction)):
                    return e.value
                b = e.binders[0]
                pos = Dim.of(b.lo).add(idx).add(off, -1)
                if isinstance(e.value, Dim):
                    c = e.value.t.get(b.var, 0)
                    return e.value.add(Dim({b.var: 1}), -c).add(pos, c).simp()
                if isinstance(e.value, Tensor) and self.const_of(e.value) is not None:
                    return e.value
                if pos.c == 0 and list(pos.t.values()) == [1] and next(iter(pos.t)) < 0:
                    return self.subst_value(e.value, {b.var: next(iter(pos.t))})
                raise Unknown('list index')
            off = off.add(n)
        raise Unknown('list index')

    def list_part(self, o, start, stop):
        """part of an increasing list of numbers after or before one of its elements"""
        r = self.plist()
        r.entries = []
        if len(o.entries) != 1 or len(o.entries[0].binders) != 1:
            raise Unknown('list slice')
        e = o.entries[0]
        b = e.binders[0]
        if not (isinstance(e.value, Dim) and e.value == Dim({b.var: 1})):
            raise Unknown('list slice')
        gs = list(e.guards)
        for x, sign in ((start, 1), (stop, -1)):
            if x is None:
                continue
            if not isinstance(x, IndexOf) or x.lst is not o or not isinstance(x.value, Dim) or x.off not in (0, 1):
                raise Unknown('list slice')
            # after: value > v (off 1) or >= v (off 0); before: value < v (off 0) or <= v (off 1)
            d = e.value.add(x.value, -1).mul(sign)
            if x.off == (0 if sign > 0 else 1):
                d = d.add(1)
            gs.append((('pos', d.key()), True))
        r.entries.append(Entry(e.value, [b], gs))
        return r

    def list_slice(self, o, start, stop):
        """slice of a list of contiguous ranges at symbolic, nonnegative positions"""
        if isinstance(start, IndexOf) or isinstance(stop, IndexOf):
            return self.list_part(o, start, stop)
        start = Dim.of(0 if start is None else start)
        if self.dim_nonneg(start) is not True:
            raise Unknown('list slice')
        if stop is not None:
            stop = Dim.of(stop)
            if self.dim_nonneg(stop.add(start, -1)) is not True:
                raise Unknown('list slice')
        r = self.plist()
        r.entries = []
        off = Dim()
        for e in o.entries:
            if e.guards or len(e.binders) > 1:
                raise Unknown('list slice')
            ln = Dim.of(e.binders[0].hi).add(e.binders[0].lo, -1) if e.binders else Dim(None, 1)
            end = off.add(ln)
            lo = hi = None
            if self.dim_nonneg(off.add(start, -1)) is not True:
                if self.dim_nonneg(start.add(end, -1)) is True:
                    off = end
                    continue
                if not e.binders or self.dim_nonneg(start.add(off, -1)) is not True or \
                        self.dim_nonneg(end.add(start, -1)) is not True:
                    raise Unknown('list slice')
                lo = start.add(off, -1)
            if stop is not None and self.dim_nonneg(stop.add(end, -1)) is not True:
                if self.dim_nonneg(off.add(stop, -1)) is True:
                    off = end
                    continue
                if not e.binders or self.dim_nonneg(stop.add(off, -1)) is not True or \
                        self.dim_nonneg(end.add(stop, -1)) is not True:
                    raise Unknown('list slice')
                hi = stop.add(off, -1)
            if e.binders:
                b = e.binders[0]
                b = Binder(b.var, b.lo if lo is None else Dim.of(b.lo).add(lo), b.hi if hi is None else Dim.of(b.lo).add(hi))
                r.entries.append(Entry(e.value, [b], []))
            else:
                r.entries.append(e)
            off = end
        return r

    def seg_range(self, ax, lo, hi):
        """segments of ax between positions lo and hi (which must be segment boundaries), else None"""
        pos = [Dim()]
        for s in ax:
            pos.append(pos[-1].add(Dim.sp(s)))
        lo, hi = Dim.of(lo), Dim.of(hi)
        L = [k for k, p in enumerate(pos) if p == lo]
        H = [k for k, p in enumerate(pos) if p == hi]
        if not L or not H:
            return None
        l, h = L[-1] if len(L) > 1 else L[0], H[0] if len(H) > 1 else H[0]
        return list(range(L[0], max(H[-1], L[0])))

    def slice_segs(self, ax, s):
        step = s.step
        n = axis_dim(ax)
        if step is not None and step != 1:
            if step == -1 and s.start is None and s.stop is None and all(x == ONE for x in ax):
                return list(reversed(range(len(ax)))), None
            if all(x == ONE for x in ax) and all(x is None or isinstance(x, int) for x in (s.start, s.stop, step)):
                return list(range(len(ax)))[s], None
            raise Unknown('slice step')

        def norm(x, default):
            if x is None:
                return default
            if isinstance(x, Top):
                raise Unknown(x.why)
            if isinstance(x, Tensor) and not x.rank and x.kind in 'bi':
                sz = self.tensor_dim(x.scalar_poly())
                if sz is not None:
                    x = sz
            if not isinstance(x, (int, Dim)):
                raise Unknown('slice bound %r' % (x,))
            d = Dim.of(x)
            if not d.t and d.c < 0:
                d = n.add(d)
            elif d.t and all(v <= 0 for v in d.t.values()) and d.c <= 0:
                if not d.c and self.truth(self.dim_zero(d.mul(-1))):
                    return Dim()        # minus nothing is the first position
                d = n.add(d)
            return d
        lo = norm(s.start, Dim())
        hi = norm(s.stop, n)
        # python clips at the end
        if not hi.t and not n.t and hi.c > n.c:
            hi = n
        segs = self.seg_range(ax, lo, hi)
        if segs is None:
            if lo == hi:
                return [], None
            if n.le(lo) is True:
                return [], None
            if n.le(hi) is True:
                segs = self.seg_range(ax, lo, n)
                if segs is not None:
                    return segs, None
            if not lo.t and (hi == n or not hi.t) or lo.t and hi.t and n.add(lo, -1).c and not n.add(lo, -1).t and hi == n \
                    or s.start is None and not n.add(hi, -1).t:
                raise Unknown('slice by a fixed number of elements')
            raise SpaceError('slice [%s:%s] does not fall on a boundary of an axis made of (%s)'
                             % (lo if s.start is not None else '', hi if s.stop is not None else '', axis_name(ax)))
        return segs, None

    def index_plan(self, t, idx):
        items = idx if isinstance(idx, tuple) else (idx,)
        items = list(items)
        nreal = 0
        for x in items:
            if x is None or x is Ellipsis:
                continue
            if isinstance(x, Arr) and isinstance(x.read(), Mask) and len(x.read().axes) > 1:
                nreal += len(x.read().axes)
            else:
                nreal += 1
        if Ellipsis in [x for x in items if x is Ellipsis]:
            k = [x is Ellipsis for x in items].index(True)
            items[k:k + 1] = [slice(None)] * (t.rank - nreal)
        else:
            items += [slice(None)] * (t.rank - nreal)
        plan = []       # per base axis: ('seg', segs) / ('one', seg) / ('var', name, seg)
        out = []        # sequence of ('axis', k) / ('new',)
        ax = 0
        copy = False
        for x in items:
            if x is None:
                out.append(('new',))
                continue
            if ax >= t.rank:
                raise AbsError('too many indices for a rank-%d array' % t.rank, self.loc)
            a = t.axes[ax]
            if isinstance(x, slice):
                segs, _ = self.slice_segs(a, x)
                plan.append(('seg', segs))
                out.append(('axis', ax))
            elif isinstance(x, bool):
                raise Unknown('boolean index')
            elif isinstance(x, int):
                if all(s == ONE for s in a):
                    if not -len(a) <= x < len(a):
                        raise Raised('IndexError', self.loc)
                    plan.append(('one', x % len(a)))
                else:
                    raise Unknown('fixed element of a symbolic axis')
            elif isinstance(x, Dim):
                plan.append(self.dim_index(a, x))
            elif isinstance(x, Arr):
                m = x.read()
                if isinstance(m, Mask) and len(m.axes) == 1:
                    if m.axes[0] != a:
                        raise SpaceError('mask over %s used on axis %s' % (axis_name(m.axes[0]), axis_name(a)))
                    plan.append(('seg', [k for k in range(len(a)) if m.vals[(k,)]]))
                    out.append(('axis', ax))
                    copy = True
                elif isinstance(m, IndexArr):
                    if m.axis != a:
                        raise SpaceError('index array over %s used on axis %s' % (axis_name(m.axis), axis_name(a)))
                    plan.append(('seg', m.segs))
                    out.append(('axis', ax))
                    copy = True
                else:
                    raise Unknown('array index')
            elif isinstance(x, (PList, tuple)):
                vals = x.values() if isinstance(x, PList) else list(x)
                if all(isinstance(v, int) for v in vals) and all(s == ONE for s in a):
                    plan.append(('seg', [v % len(a) for v in vals]))
                    out.append(('axis', ax))
                    copy = True
                else:
                    raise Unknown('list index')
            else:
                raise Unknown('index %r' % (x,))
            ax += 1
        return plan, out, copy

    def dim_index(self, a, x):
        """symbolic position on an axis: find the segment it lies in"""
        off = Dim()
        for k, s in enumerate(a):
            hi = off.add(Dim.sp(s))
            d = x.add(off, -1)
            inlo = self.dim_nonneg(d)
            inhi = self.dim_nonneg(hi.add(x, -1).add(-1))
            if inlo is True and inhi is True:
                if s == ONE:
                    return ('one', k)
                neg_ = [(v, c) for v, c in d.t.items() if v < 0]
                if len(neg_) == 1 and neg_[0][1] == 1 and len(d.t) == 1 and d.c == 0:
                    return ('var', neg_[0][0], k)
                return ('var', position(d, d, s), k)
            off = hi
        if len(a) == 1:
            neg_ = [(v, c) for v, c in x.t.items() if v < 0]
            if len(neg_) == 1 and neg_[0][1] == 1 and len(x.t) == 1 and x.c == 0:
                return ('var', neg_[0][0], 0)
            return ('var', position(x, self.name_dim(x), a[0]), 0)
        mine = {v for k in a for v in Dim.sp(k).t}
        if len(a) > 1 and x.t and mine and not any(v < 0 or v in mine for v in x.t):
            raise SpaceError('position %s used on axis %s' % (self.name_dim(x), axis_name(a)))
        if any(v < 0 for v in x.t) and self.dim_nonneg(x) is True:
            if not self.truth(self.dim_pos(off.add(x, -1))):
                raise Raised('IndexError', self.loc)
            off = Dim()
            for k, s in enumerate(a):           # one case per segment
                hi = off.add(Dim.sp(s))
                if k == len(a) - 1 or self.truth(self.dim_pos(hi.add(x, -1))):
                    if s == ONE:
                        return ('one', k)
                    d = x.add(off, -1)
                    if len(d.t) == 1 and d.c == 0 and list(d.t.values()) == [1]:
                        return ('var', next(iter(d.t)), k)
                    return ('var', position(d, d, s), k)
                off = hi
        raise Unknown('position on a segmented axis')

    def name_dim(self, d):
        return '+'.join(['%s%s' % ('' if c == 1 else '%d*' % c, poly.SPACE_NAMES[s] if s >= 0 else NAMED_INFO[s][0])
                         for s, c in sorted(d.t.items())] + ([str(d.c)] if d.c else []))

    def dim_nonneg(self, d):
        r = self.dim_pos(d.add(1))
        if isinstance(r, Cond):
            k = self.known_guard(r.key)
            return k
        return r

    def apply_plan(self, t, plan, out):
        # select / fix from the last axis to the first
        for ax in range(t.rank - 1, -1, -1):
            p = plan[ax]
            if p[0] == 'seg':
                a = t.axes[ax]
                if p[1] != list(range(len(a))):
                    t = select(t, ax, p[1], [a[k] for k in p[1]])
            elif p[0] == 'one':
                t = drop_axis(select(t, ax, [p[1]], [t.axes[ax][p[1]]]), ax)
            else:
                t = fix_index(t, ax, p[1], p[2])
        pos = 0
        for k, o in enumerate(out):
            if o[0] == 'new':
                t = add_axis(t, k)
        return t

    def put_plan(self, base, plan, out, new):
        """base with the region described by the plan replaced by new"""
        if any(p[0] == 'var' for p in plan):
            raise Unknown('write through a symbolic position')
        keep = [ax for ax in range(base.rank) if plan[ax][0] == 'seg']
        # drop new axes from value
        t = new
        for k in range(len(out) - 1, -1, -1):
            if out[k][0] == 'new':
                t = drop_axis(t, k)
        blocks = {k: p for k, p in base.blocks.items()}
        m = {n: ax for n, ax in enumerate(keep)}
        sel = [plan[ax][1] if plan[ax][0] == 'seg' else [plan[ax][1]] for ax in range(base.rank)]
        for key in itertools.product(*sel):
            vk = tuple(plan[ax][1].index(key[ax]) for ax in keep)
            p = t.blocks.get(vk)
            if p:
                blocks[key] = poly.pmap(p, lambda i: m[i] if 0 <= i < 1000 else i)
            else:
                blocks.pop(key, None)
        return Tensor(base.axes, blocks, base.kind)

    def fit_segments(self, o, t, idx):
        """order the segments of uniform axes (fresh arrays) so that the slice bounds become boundaries"""
        items = list(idx) if isinstance(idx, tuple) else [idx]
        if any(x is Ellipsis or x is None for x in items):
            return t
        changed = False
        for ax, x in enumerate(items[:t.rank]):
            if not isinstance(x, slice) or len(t.axes[ax]) < 2 or isinstance(x.start, Top) or isinstance(x.stop, Top):
                continue
            try:
                self.slice_segs(t.axes[ax], x)
                continue
            except SpaceError:
                pass
            except Unknown:
                continue
            runs = [r for r in T.uniform_runs(t, ax) if len(r) > 1]
            if not runs:
                continue
            for new in self.segment_orders(t.axes[ax], runs, x):
                try:
                    self.slice_segs(tuple(new), x)
                except (SpaceError, Unknown):
                    continue
                r = T.reseg(t, ax, new)
                if r is not None:
                    t = r
                    changed = True
                    break
        if changed and o.base is None:
            o.val = t
        return t

    def segment_orders(self, axis, runs, sl):
        """candidate orders of the segments within the runs so that the slice bounds become boundaries"""
        if len(runs[0]) == len(axis):
            # bounds given as sums of segment lengths: take those segments first
            rest = list(axis)
            new = []
            prev = Dim()
            for b in (sl.start, sl.stop):
                if not isinstance(b, Dim) or b.c:
                    continue
                d = b.add(prev, -1)
                take = []
                ok = True
                for sp, c in sorted(d.t.items()):
                    if sp < 0 or c < 0 or rest.count(sp) < c or c != int(c):
                        ok = False
                        break
                    take += [sp] * int(c)
                if not ok:
                    break
                for sp in take:
                    rest.remove(sp)
                new += take
                prev = b
            yield new + rest
        if sum(len(r) for r in runs) <= 6:
            for perms in itertools.product(*[itertools.permutations(r) for r in runs]):
                new = list(axis)
                for r, perm in zip(runs, perms):
                    for a, b in zip(r, perm):
                        new[a] = axis[b]
                yield new

    def fit_value(self, o, t, plan, out, val):
        """order the segments of uniform regions of t like those of the value about to be stored there"""
        off = len(out) - val.rank
        k = -1
        changed = False
        for e in out:
            k += 1
            if e[0] != 'axis' or k < off:
                continue
            ax = e[1]
            segs = plan[ax][1]
            have = tuple(t.axes[ax][q] for q in segs)
            want = val.axes[k - off]
            if have == want or len(have) != len(want) or sorted(have) != sorted(want):
                continue
            new = list(t.axes[ax])
            for q, sp in zip(segs, want):
                new[q] = sp
            r = T.reseg(t, ax, new)
            if r is not None:
                t = r
                changed = True
        if changed and o.base is None:
            o.val = t
        return t

    def int_array(self, x):
        """shape and elements of an array of fixed integers used as an index, or None"""
        if isinstance(x, PList):
            if not x.concrete() or not x.entries:
                return None
            vals = x.values()
            if all(isinstance(v, int) and not isinstance(v, bool) for v in vals):
                return (len(vals),), vals
            return None
        if not isinstance(x, Arr) or not isinstance(x.read(), Tensor):
            return None
        t = x.read()
        if t.kind != 'i' or not t.rank or any(s != ONE for a in t.axes for s in a):
            return None
        vals = []
        for k in itertools.product(*[range(len(a)) for a in t.axes]):
            p = t.blocks.get(k, {})
            if p and (set(p) != {()} or p[()].denominator != 1):
                return None
            vals.append(int(p[()]) if p else 0)
        return tuple(len(a) for a in t.axes), vals

    def fancy(self, t, idx):
        """shape of a selection by arrays of fixed integers and pairs (element of it, element of the array)"""
        items = list(idx) if isinstance(idx, tuple) else [idx]
        if not any(isinstance(x, (Arr, PList)) for x in items) or any(s != ONE for a in t.axes for s in a):
            return None
        if any(x is None for x in items) or sum(x is Ellipsis for x in items) > 1:
            return None
        for k, x in enumerate(items):
            if x is Ellipsis:
                items[k:k + 1] = [slice(None)] * (t.rank - len(items) + 1)
                break
        items += [slice(None)] * (t.rank - len(items))
        if len(items) != t.rank:
            raise AbsError('too many indices for a rank-%d array' % t.rank, self.loc)
        adv = {}
        pos = []
        for k, x in enumerate(items):
            n = len(t.axes[k])
            if isinstance(x, slice):
                pos.append(self.slice_segs(t.axes[k], x)[0])
                continue
            a = ((), [x]) if isinstance(x, int) and not isinstance(x, bool) else self.int_array(x)
            if a is None:
                return None
            if any(not -n <= v < n for v in a[1]):
                raise Raised('IndexError', self.loc)
            adv[k] = (a[0], [v % n for v in a[1]])
            pos.append(None)
        rank = max(len(s) for s, v in adv.values())
        shape = []
        for r in range(rank):
            ns = {s[r - rank + len(s)] for s, v in adv.values() if r - rank + len(s) >= 0} - {1}
            if len(ns) > 1:
                raise AbsError('index arrays of different lengths', self.loc)
            shape.append(ns.pop() if ns else 1)

        def at(a, key):
            f = 0
            for n, x in zip(a[0], key[rank - len(a[0]):]):
                f = f * n + (x if n > 1 else 0)
            return a[1][f]
        ks = sorted(adv)
        first = ks[0] if ks == list(range(ks[0], ks[-1] + 1)) else 0
        rest = [k for k in range(t.rank) if k not in adv]
        before = [k for k in rest if k < first]
        after = [k for k in rest if k >= first]
        out = [len(pos[k]) for k in before] + shape + [len(pos[k]) for k in after]
        pairs = []
        for key in itertools.product(*[range(n) for n in out]):
            q = [None] * t.rank
            for j, k in enumerate(before):
                q[k] = pos[k][key[j]]
            for j, k in enumerate(after):
                q[k] = pos[k][key[len(before) + rank + j]]
            for k, a in adv.items():
                q[k] = at(a, key[len(before):len(before) + rank])
            pairs.append((key, tuple(q)))
        return out, pairs

    def arr_getitem(self, o, idx):
        t = o.read()
        if isinstance(t, Top):
            return Top(t.why)
        if not isinstance(t, Tensor):
            if hasattr(t, 'sa_index'):
                return t.sa_index(self, o, idx)
            raise Unknown('array domain')
        if isinstance(idx, tuple) and not idx:
            return o
        if isinstance(idx, (IndexOf,)) or isinstance(idx, tuple) and any(isinstance(x, IndexOf) for x in idx):
            raise Unknown('element at a list position')
        if o.root().logs:
            raise Unknown('array read while a symbolic loop is writing to it')
        if isinstance(idx, Ix):
            r = self.arr_getitem(o, tuple(idx))
            return self.new(self.to_tensor(r)) if isinstance(r, Arr) else r
        f = self.fancy(t, idx)
        if f is not None:
            return self.new(Tensor([(ONE,) * n for n in f[0]], {k: t.blocks.get(q, {}) for k, q in f[1]}, t.kind))
        t = self.fit_segments(o, t, idx)
        plan, out, copy = self.index_plan(t, idx)
        r = self.apply_plan(t, plan, out)
        if r.rank == 0:
            return r
        if copy:
            return self.new(r)
        return self.view(o, lambda b: self.apply_plan(b, plan, out), lambda b, new: self.put_plan(b, plan, out, new))

    def setitem(self, o, idx, v):
        if isinstance(o, Top):
            return
        if isinstance(o, PDict):
            if o.origin:
                self.effect(o.origin, 'dictionary modified')
            try:
                o.d[self.dkey(idx)] = v
            except Unknown:
                self.taint(o)
                self.unknown('dictionary key')
            return
        if isinstance(o, PList):
            self.list_touch(o, 'list modified')
            if isinstance(idx, int) and o.concrete() and -len(o.entries) <= idx < len(o.entries):
                o.entries[idx] = Entry(v)
                return
            if hasattr(self, 'list_setitem') and self.list_setitem(o, idx, v):
                return
            self.unknown('list element assignment')
            o.entries = [Entry(Top('list'))]
            return
        if isinstance(o, Arr):
            try:
                self.arr_setitem(o, idx, v)
            except Unknown as e:
                self.unknown('array element assignment: %s' % e)
                if o.root().origin:
                    self.effect(o.root().origin, 'array element written')
                self.taint(o)
            except SpaceError as e:
                raise AbsError(str(e), self.loc)
            return
        if isinstance(o, Obj) and isinstance(o.cls, Cls) and o.cls.lookup('__setitem__'):
            self.call(self.getattr(o, '__setitem__'), [idx, v], {})
            return
        self.unknown('item assignment')

    def arr_setitem(self, o, idx, v):
        t = o.read()
        root = o.root()
        if isinstance(t, Top):
            if root.origin:
                self.effect(root.origin, 'array element written')
            return
        if not isinstance(t, Tensor):
            if hasattr(t, 'sa_setindex'):
                return t.sa_setindex(self, o, idx, v)
            raise Unknown('array domain')
        if isinstance(v, Arr) and hasattr(v.read(), 'sa_promote'):
            return v.read().sa_promote(self, o, idx)
        if hasattr(v, 'sa_promote'):
            return v.sa_promote(self, o, idx)
        if self.moved_write is not None and self.moved_write(o, idx, v):
            return
        if isinstance(idx, Top) and idx.why == 'array comparison' and isinstance(v, (int, float)) and v and self.depth <= root.depth:
            # some elements, chosen by their values, become a fixed number
            self.loopvar += 1
            v = T.lossy('where#%d' % self.loopvar, T.full(t.axes, 1, 'f'), t.kind)
            idx = slice(None)
        if self.symbolic_index(idx) or self.depth > root.depth:
            if isinstance(v, (Arr, Tensor, int, float, Dim)):
                self.write_index(o, idx, v, '=')
                return
            if self.symbolic_index(idx):
                self.write_index(o, idx, v, '=')
                return
        f = self.fancy(t, idx)
        if f is not None:
            val = self.to_tensor(v)
            val = expand(val, [(ONE,) * n for n in f[0]])
            if KINDS[val.kind] > KINDS[t.kind] and val.blocks:
                val = self.lose(val, t.kind)
            blocks = dict(t.blocks)
            for k, q in f[1]:
                blocks[q] = val.blocks.get(k, {})
            self.write(o, Tensor(t.axes, blocks, t.kind))
            return
        t = self.fit_segments(o, t, idx)
        plan, out, copy = self.index_plan(t, idx)
        if isinstance(v, Unshaped):
            raise Unknown('unshaped value')
        val = self.to_tensor(v)
        while val.rank > len(out) and val.axes[0] == (ONE,):
            val = drop_axis(val, 0)
        if o.base is None and val.rank <= len(out):
            t = self.fit_value(o, t, plan, out, val)
        cur = self.apply_plan(t, plan, out)
        val = expand(val, cur.axes)
        if KINDS[val.kind] > KINDS[t.kind] and val.blocks:
            val = self.lose(val, t.kind)
        new = self.put_plan(t, plan, out, Tensor(val.axes, val.blocks, t.kind))
        self.write(o, new)

    # ------------------------------------------------------------ attributes

    def ex_Attribute(self, n):
        o = self.eval(n.value)
        return self.getattr(o, n.attr)

    def getattr(self, o, name):
        if isinstance(o, Top):
            return Top(o.why)
        if isinstance(o, Maybe):
            o = self.unmaybe(o)
        if isinstance(o, Ext):
            return self.ext_attr(o, name)
        if isinstance(o, Module):
            if name in o.env:
                return o.env[name]
            try:
                return self.module(o.name + '.' + name)
            except Unknown:
                raise Raised('AttributeError', self.loc, name)
        if isinstance(o, Obj):
            if o.getter is not None:
                v = o.getter(self, o, name)
                if v is not None:
                    return v
            if name in o.attrs:
                return o.attrs[name]
            if isinstance(o.cls, Cls):
                f = o.cls.lookup(name)
                if f is not None:
                    if isinstance(f, Func):
                        if f.kind == 'property':
                            return self.call_func(f, [o], {})
                        if f.kind == 'staticmethod':
                            return f
                        if f.kind == 'classmethod':
                            return Bound(f, o.cls)
                        return Bound(f, o)
                    return f
                if name == '__class__':
                    return o.cls
                if name == '__dict__':
                    return PDict(o.attrs, o.origin, self.depth)
            if o.closed:
                raise Raised('AttributeError', self.loc, name)
            return self.unknown('attribute %s of %r' % (name, o))
        if isinstance(o, Cls):
            f = o.lookup(name)
            if f is None:
                if name == '__name__':
                    return o.name
                raise Raised('AttributeError', self.loc, name)
            if isinstance(f, Func) and f.kind == 'classmethod':
                return Bound(f, o)
            return f
        if isinstance(o, Func):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
            if name == '__doc__':
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            raise Raised('AttributeError', self.loc, name)
        if hasattr(o, 'sa_getattr'):
            return o.sa_getattr(self, name)
        return self.value_attr(o, name)

    # ------------------------------------------------------------ calls

    def ex_Call(self, n):
        f = self.eval(n.func)
        args = []
        kwargs = {}
        try:
            for a in n.args:
                if isinstance(a, ast.Starred):
                    args += self.concrete_iter(self.eval(a.value))
                else:
                    args.append(self.eval(a))
            for k in n.keywords:
                if k.arg is None:
                    d = self.eval(k.value)
                    if not isinstance(d, PDict):
                        raise Unknown('keyword expansion')
                    for kk, vv in d.d.items():
                        kwargs[kk] = vv
                else:
                    kwargs[k.arg] = self.eval(k.value)
        except Unknown:
            # the call is made with arguments that are not known: it may write to any of them
            for x in n.args + [k.value for k in n.keywords]:
                self.maybe_mutated(self.eval(x.value if isinstance(x, ast.Starred) else x))
            raise
        self.loc = (self.loc[0], self.loc[1], n.lineno)
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        if isinstance(f, Maybe):
            f = self.unmaybe(f)
        if self.small and len(self.frames) == 1:
            memo = {}
            args = [self.small_value(a, memo) for a in args]
            kwargs = {k: self.small_value(a, memo) for k, a in kwargs.items()}
        if self.snap is not None and not self.snap:
            self.take_snapshot((args, list(kwargs.values())))
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.func, [f.obj] + list(args), kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Native):
            loc = self.loc
            if f.selfobj is not None:
                r = f.fn(self, f.selfobj, *args, **kwargs)
            else:
                r = f.fn(self, *args, **kwargs)
            return r
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs)
        if isinstance(f, Top):
            for a in args:
                self.maybe_mutated(a)
            return Top(f.why)
        if isinstance(f, Obj) and isinstance(f.cls, Cls) and f.cls.lookup('__call__'):
            return self.call(self.getattr(f, '__call__'), args, kwargs)
        if isinstance(f, Obj) and f.getter is not None:
            r = f.getter(self, f, '__call__')
            if r is not None:
                return self.call(r, args, kwargs)
        for a in list(args) + list(kwargs.values()):
            self.maybe_mutated(a)
        raise Unknown('call of %r' % (f,))

    def take_snapshot(self, args):
        """remember the state of the arguments of the outermost call, so that one analysed path does not see another's
        writes"""
        self.snap = [(None, None, None)]
        seen = set()

        def walk(v):
            if id(v) in seen:
                return
            seen.add(id(v))
            if isinstance(v, Arr):
                r = v.root()
                self.snap.append((r, 'val', r.val))
            elif isinstance(v, (tuple, list)):
                for x in v:
                    walk(x)
            elif isinstance(v, PList):
                self.snap.append((v, 'entries', list(v.entries)))
                for e in v.entries:
                    walk(e.value)
            elif isinstance(v, PDict):
                self.snap.append((v, 'd', dict(v.d)))
                for x in v.d.values():
                    walk(x)
            elif isinstance(v, Obj):
                self.snap.append((v, 'attrs', dict(v.attrs)))
                for x in v.attrs.values():
                    walk(x)
        walk(args)

    def restore_snapshot(self):
        for o, name, state in self.snap or ():
            if o is not None:
                setattr(o, name, state)
        self.snap = None

    def small_value(self, v, memo):
        """an argument at fixed small sizes"""
        if id(v) in memo:
            return memo[id(v)][1]
        if isinstance(v, Arr):
            t = v.read()
            if not isinstance(t, Tensor):
                raise Unknown('no small instance')
            r = v if all(s == ONE for a in t.axes for s in a) else Arr(T.small(t), origin=v.root().origin)
        elif isinstance(v, Dim):
            r = T.small_dim(v)
        elif isinstance(v, Tensor):
            r = T.small(v)
        elif isinstance(v, tuple):
            r = tuple(self.small_value(x, memo) for x in v)
        elif isinstance(v, PList):
            r = PList([Entry(self.small_value(x, memo)) for x in v.values()])
            r.origin = v.origin
        elif isinstance(v, Obj):
            r = Obj(v.cls, {}, origin=v.origin, name=v.name)
            r.getter, r.closed = v.getter, v.closed
            memo[id(v)] = (v, r)
            for k, x in v.attrs.items():
                r.attrs[k] = self.small_value(x, memo)
        elif isinstance(v, Native) and v.selfobj is not None and id(v.selfobj) in memo:
            r = Native(v.name, v.fn, memo[id(v.selfobj)][1])
        else:
            r = v
        memo[id(v)] = (v, r)
        return r

    def maybe_mutated(self, a):
        """argument of an unmodelled callable"""
        self.taint(a, 'passed to an unmodelled function')

    def instantiate(self, c, args, kwargs):
        ov = self.overrides.get(c.module.name + '.' + c.name)
        if ov is not None:
            r = ov(self, args, kwargs)
            if r is not NotImplemented:
                return r
        o = Obj(c)
        o.depth = self.depth
        if self.mark_origin:
            o.origin = self.mark_origin
        init = c.lookup('__init__')
        if isinstance(init, Func):
            self.call_func(init, [o] + list(args), kwargs)
        elif 'dataclass' in ''.join(map(str, c.bases)):
            raise Unknown('dataclass')
        return o

    def qualname(self, f):
        return '%s.%s%s' % (f.module.name, f.cls.name + '.' if f.cls is not None else '', f.name)

    def call_func(self, f, args, kwargs):
        q = self.qualname(f)
        ov = self.overrides.get(q)
        if ov is not None:
            r = ov(self, args, kwargs)
            if r is not NotImplemented:
                return r
        self.functions_seen[q] = (self.relpath(f.module.path), f.node.lineno)
        fr = Frame(f.module, f, f.closure)
        try:
            if len(self.frames) > MAX_CALL_DEPTH:
                raise Unknown('call depth')
            self.bind_args(f, fr, list(args), dict(kwargs))
        except Unknown:
            for a in list(args) + list(kwargs.values()):
                self.maybe_mutated(a)
            raise
        saved_loc = self.loc
        saved_mark = self.mark_origin
        if saved_mark and not saved_mark.startswith('module'):
            self.mark_origin = None
        if f.attrs.get('__cached__'):
            return self.call_cached(f, fr, saved_loc, saved_mark)
        return self.call_body(f, fr, saved_loc, saved_mark)

    def call_cached(self, f, fr, saved_loc, saved_mark):
        r = self.call_body(f, fr, saved_loc, saved_mark)

        def mark(v):
            if isinstance(v, Arr):
                v.root().origin = v.root().origin or 'cached result of %s' % f.name
            elif isinstance(v, (PList, PDict, Obj)):
                v.origin = v.origin or 'cached result of %s' % f.name
            elif isinstance(v, tuple):
                for x in v:
                    mark(x)
        mark(r)
        return r

    def call_body(self, f, fr, saved_loc, saved_mark):
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body)
            if f.is_gen is None:
                f.is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(f.node))
            if f.is_gen:
                fr.yields = self.plist()
            try:
                self.exec_block(f.node.body)
            except ReturnEx as r:
                return fr.yields if f.is_gen else r.value
            return fr.yields if f.is_gen else None
        finally:
            self.frames.pop()
            self.loc = saved_loc
            self.mark_origin = saved_mark

    def ex_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else None
        self.list_append(self.frame.yields, v)
        return None

    def ex_YieldFrom(self, n):
        self.list_extend(self.frame.yields, self.eval(n.value))
        return None

    def bind_args(self, f, fr, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        for n, v in zip(pos, args):
            fr.vars[n] = v
        if len(args) > len(pos):
            if a.vararg is None:
                raise AbsError('%s() takes %d positional arguments but %d were given' % (f.name, len(pos), len(args)), self.loc)
            fr.vars[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            fr.vars[a.vararg.arg] = ()
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                if k in fr.vars:
                    raise AbsError('%s() got multiple values for argument %s' % (f.name, k), self.loc)
                fr.vars[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            fr.vars[a.kwarg.arg] = PDict(extra, depth=self.depth)
        elif extra:
            raise AbsError('%s() got an unexpected keyword argument %s' % (f.name, sorted(extra)[0]), self.loc)
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:], f.defaults):
            if n not in fr.vars:
                fr.vars[n] = d
        for n in pos:
            if n not in fr.vars:
                raise AbsError('%s() missing argument %s' % (f.name, n), self.loc)
        for n in kwonly:
            if n not in fr.vars:
                if n in f.kwdefaults:
                    fr.vars[n] = f.kwdefaults[n]
                else:
                    raise AbsError('%s() missing argument %s' % (f.name, n), self.loc)

    # ------------------------------------------------------------ comprehensions

    def ex_ListComp(self, n):
        l = self.plist()
        self.comprehend(n.generators, 0, lambda: self.list_append(l, self.eval(n.elt)), l)
        self.normalise_list(l)
        return l

    def ex_GeneratorExp(self, n):
        return self.ex_ListComp(n)

    def ex_SetComp(self, n):
        return self.ex_ListComp(n)

    def ex_DictComp(self, n):
        d = PDict(depth=self.depth)

        def put():
            k = self.eval(n.key)
            d.d[self.dkey(k)] = self.eval(n.value)
        self.comprehend(n.generators, 0, put, d, concrete=True)
        return d

    def comprehend(self, gens, k, emit, target, concrete=False):
        if k == len(gens):
            emit()
            return
        g = gens[k]
        it = self.eval(g.iter)
        items = self.iterate(it)
        fr = self.frame
        names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        saved = {n: fr.vars[n] for n in names if n in fr.vars}

        def body():
            for c in g.ifs:
                if not self.truth(self.eval(c)):
                    return
            self.comprehend(gens, k + 1, emit, target, concrete)
        for x in items:
            if isinstance(x, Gen):
                if concrete:
                    raise Unknown('symbolic comprehension')
                for kind, sc in self.scope_paths(x.binders, x.guards):
                    self.assign(g.target, self.force(x.value))
                    body()
            else:
                self.assign(g.target, x)
                body()
        for n in names:
            fr.vars.pop(n, None)
        fr.vars.update(saved)

    def normalise_list(self, l):
        """entries of one binder split by linear guards on that binder become contiguous ranges"""
        if l.concrete():
            return
        out = []
        for e in l.entries:
            out.append(self.narrow(e))
        # order adjacent ranges of pieces of the same original binder
        if all(e is not None and len(e.binders) == 1 for e in out) and len(out) > 1:
            vars_ = {e.binders[0].var for e in l.entries}
            if len(vars_) == 1:
                def before(x, y):
                    return x.binders[0].hi == y.binders[0].lo
                order = [e for e in out]
                for _ in range(len(order) ** 2):
                    swapped = False
                    for k in range(len(order) - 1):
                        if before(order[k + 1], order[k]) and not before(order[k], order[k + 1]):
                            order[k], order[k + 1] = order[k + 1], order[k]
                            swapped = True
                    if not swapped:
                        break
                out = order
        l.entries = [o if o is not None else e for o, e in zip(out, l.entries)] if None in out else out
        self.merge_bits(l)

    def normalise_appended(self, l, n0):
        """normalise the entries a loop has appended after position n0"""
        new = l.entries[n0:]
        if len(l.entries) <= n0 or any(len(e.binders) != 1 for e in new):
            return
        t = self.plist()
        t.entries = list(new)
        self.normalise_list(t)
        l.entries[n0:] = t.entries

    def merge_bits(self, l):
        """entries of one binder split completely by zero/one values become one entry with a polynomial value"""
        if len(l.entries) < 2:
            return
        es = l.entries
        if any(len(e.binders) != 1 or not e.guards or any(k[0] != 'bit' for k, _ in e.guards) for e in es):
            return
        if len({(e.binders[0].var, e.binders[0].lo, e.binders[0].hi) for e in es}) > 1:
            return
        total, value, kind = {}, {}, 'b'
        for e in es:
            ind = poly.pconst(1)
            for key, val in e.guards:
                bit = {(key[1],): Fraction(1)}
                ind = poly.pmul(ind, bit if val else poly.padd(poly.pconst(1), bit, -1))
            total = poly.padd(total, ind)
            if not isinstance(e.value, (int, float, Tensor)) or isinstance(e.value, Tensor) and e.value.rank:
                return
            t = self.to_tensor(e.value)
            value = poly.padd(value, poly.pmul(ind, t.scalar_poly()))
            kind = T.kjoin(kind, t.kind)
        if total != poly.pconst(1):
            return
        l.entries = [Entry(scalar(value, kind), es[0].binders, [])]

    def narrow(self, e):
        if len(e.binders) != 1:
            return e
        b = e.binders[0]
        lo, hi = b.lo, b.hi
        rest = []
        for key, val in e.guards:
            if key[0] == 'pos':
                d = Dim(dict(key[1][0]), key[1][1])
                c = d.t.get(b.var, 0)
                others = [s for s in d.t if s < 0 and s != b.var]
                if c in (1, -1) and not others:
                    r = d.add(Dim({b.var: 1}), -c)
                    if c == -1:
                        # r - var > 0  <=> var < r
                        if val:
                            hi = self.dim_min(hi, r)
                        else:
                            lo = self.dim_max(lo, r)
                    else:
                        # var + r > 0 <=> var >= 1 - r ; else var < 1 - r
                        q = Dim(None, 1).add(r, -1)
                        if val:
                            lo = self.dim_max(lo, q)
                        else:
                            hi = self.dim_min(hi, q)
                    if lo is None or hi is None:
                        return e
                    continue
            rest.append((key, val))
        return Entry(e.value, [Binder(b.var, lo, hi)], rest)

    def dim_min(self, a, b):
        if a is None or b is None:
            return None
        if a.le(b) is True:
            return a
        if b.le(a) is True:
            return b
        return None

    def dim_max(self, a, b):
        if a is None or b is None:
            return None
        if a.le(b) is True:
            return b
        if b.le(a) is True:
            return a
        return None


class ClassFrame(Frame):
    pass


class LazyItem(object):
    def __init__(self, arr, idx):
        self.arr = arr
        self.idx = idx


class Maybe(object):
    """value, or None when the condition key is false"""
    __slots__ = ('value', 'key')

    def __init__(self, value, key):
        self.value = value
        self.key = key

    def __repr__(self):
        return 'Maybe(%r)' % (self.value,)


class MaybeTuple(object):
    """tuple all of whose items are None together when key is false"""
    def __init__(self, values, key):
        self.values = values
        self.key = key

    def items(self, interp):
        k = interp.known_guard(self.key)
        if k is True:
            return list(self.values)
        if k is False:
            return [None] * len(self.values)
        return [Maybe(v, self.key) for v in self.values]


class Mask(object):
    """boolean array constant on blocks"""
    def __init__(self, axes, vals):
        self.axes = tuple(axes)
        self.vals = vals

    def invert(self):
        return Mask(self.axes, {k: not v for k, v in self.vals.items()})

    def tensor(self):
        return Tensor(self.axes, {k: poly.pconst(1) for k, v in self.vals.items() if v}, 'b')

    def any(self, I):
        yes = [k for k, v in self.vals.items() if v]
        if not yes:
            return False
        if any(all(self.axes[n][i] == ONE for n, i in enumerate(k)) for k in yes):
            return True
        return I.unknown_cond('any')

    def all(self, I):
        r = self.invert().any(I)
        return Cond(r.key, not r.neg) if isinstance(r, Cond) else not r


class IndexArr(object):
    """array of positions: the listed segments of an axis, in order"""
    def __init__(self, axis, segs):
        self.axis = axis
        self.segs = segs

    def positions(self):
        """the positions, when every listed segment is a single element"""
        off = [Dim()]
        for s in self.axis:
            off.append(off[-1].add(Dim.sp(s)))
        if any(self.axis[k] != ONE for k in self.segs):
            raise Unknown('positions of a whole range')
        return [off[k].simp() for k in self.segs]

    def sa_elems(self, I):
        return self.positions()

    def gens(self, I):
        """the positions in turn"""
        off = [Dim()]
        for s in self.axis:
            off.append(off[-1].add(Dim.sp(s)))
        out = []
        n = 0
        while n < len(self.segs):
            k = e = self.segs[n]
            while n + 1 < len(self.segs) and self.segs[n + 1] == e + 1 and any(self.axis[q] != ONE for q in (k, e + 1)):
                e += 1
                n += 1
            n += 1
            if k == e and self.axis[k] == ONE:
                out.append(off[k].simp())
                continue
            v = I.fresh_var('x')
            out.append(Gen([Binder(v, off[k], off[e + 1])], [], Dim({v: 1})))
        return out

    def sa_len(self, I):
        return axis_dim([self.axis[k] for k in self.segs]).simp()

    def early(self, idx):
        """a position near the front of the list when segments have a least size"""
        off = Dim()
        offs = []
        for s in self.axis:
            offs.append(off)
            off = off.add(Dim.sp(s))
        for k in self.segs:
            n = 1 if self.axis[k] == ONE else Dim.MIN
            if idx < n:
                return offs[k].add(idx).simp()
            if self.axis[k] != ONE:
                break
            idx -= n
        return None

    def sa_index(self, I, o, idx):
        if Dim.MIN and isinstance(idx, int) and not isinstance(idx, bool) and idx >= 0 and self.early(idx) is not None:
            return self.early(idx)
        pos = self.positions()
        if isinstance(idx, int) and not isinstance(idx, bool):
            if not -len(pos) <= idx < len(pos):
                raise Raised('IndexError', I.loc)
            return pos[idx]
        if isinstance(idx, slice):
            return Arr(IndexArr(self.axis, self.segs[idx]), depth=I.depth)
        raise Unknown('index of positions')

    def sa_arrattr(self, I, o, name):
        if name == 'size':
            return self.sa_len(I)
        if name == 'shape':
            return (self.sa_len(I),)
        if name in ('tolist', 'flatten', 'ravel', 'copy'):
            return Native(name, lambda I: I.plist(self.positions()) if name == 'tolist' else o)
        raise Unknown('attribute of positions')


KNAME = {'b': 'boolean', 'i': 'integer', 'f': 'real', 'c': 'complex'}


def holds(op, c):
    return {'Eq': c == 0, 'NotEq': c != 0, 'Lt': c < 0, 'LtE': c <= 0, 'Gt': c > 0, 'GtE': c >= 0}[op]


OPAQUE = {}


def position(d, shown, s):
    """index variable of the position d in the space s"""
    i = poly.named('<%r>' % (shown,), s)
    OPAQUE[i] = d
    return i


def mentions(v, m, seen=None):
    """whether a value depends on one of the loop variables m"""
    if isinstance(v, (int, float, str, bool, type(None), Top, Func, Cls, Module, Ext, Native, DType)):
        return False
    if isinstance(v, Dim):
        return any(i in m or i in OPAQUE and mentions(OPAQUE[i], m) for i in v.t)
    if isinstance(v, Tensor):
        return any(i in m or i in OPAQUE and mentions(OPAQUE[i], m)
                   for p in v.blocks.values() for mono in p for f in mono for i in f[1:])
    seen = set() if seen is None else seen
    if id(v) in seen:
        return False
    seen.add(id(v))
    if isinstance(v, Arr):
        return mentions(v.read(), m, seen)
    if isinstance(v, Binder):
        return v.var in m or mentions(v.lo, m, seen) or mentions(v.hi, m, seen)
    if isinstance(v, (tuple, list, set, frozenset)):
        return any(mentions(x, m, seen) for x in v)
    if isinstance(v, dict):
        return any(mentions(x, m, seen) for kv in v.items() for x in kv)
    names = list(getattr(v, '__dict__', ()))
    for c in type(v).__mro__:
        s = c.__dict__.get('__slots__', ())
        names += [s] if isinstance(s, str) else list(s)
    return any(mentions(getattr(v, n, None), m, seen) for n in names)


def subst_dim(d, m):
    if not any(s in m for s in d.t):
        return d
    t = {}
    for s, c in d.t.items():
        s2 = m.get(s, s)
        t[s2] = t.get(s2, 0) + c
    return Dim(t, d.c)


def subst_key(k, m):
    if k[0] in ('pos', 'zero'):
        d = subst_dim(Dim(dict(k[1][0]), k[1][1]), m)
        return (k[0], d.key() if k[0] == 'pos' else Interp.zero_key(d))
    if k[0] == 'bit':
        return ('bit', (k[1][0],) + tuple(m.get(i, i) for i in k[1][1:]))
    if k[0] in ('occ', 'rank'):
        return tuple(subst_dim(x, m) if isinstance(x, Dim) else x for x in k)
    return k


def walk_own(fn):
    """nodes of a function without those of nested functions"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))
