"""Checks of the finite-temperature helpers (C30 - C32): piecewise exact functions and interval bounds."""
from decimal import Decimal
from fractions import Fraction

from . import poly, ratfun as Q, tensor as T
from .framework import compare_tensor
from .interp import AbsError, Raised
from .poly import space
from .structchecks import Runner
from .tensor import Dim, Tensor, Unknown
from .values import Arr, Cond, DType, Native, PList, Top

ASSUME_FT = ['values are compared as mathematical functions; rounding is modelled only as loss of significant digits (beyond 1e-7, for the potentials 1e-4) at sampled arguments',
             'the inverse temperature is positive']
EXP_MAX = 709


ULP = Decimal(2) ** -53
POINTS = [(Decimal(x), Decimal(b), Decimal(m)) for b, m in (('1', '0'), ('2.5', '-0.75'))
          for x in ('-200', '-60', '-40', '-32', '-25', '-19', '-6', '-0.5', '0.5', '6', '19', '25', '32', '40', '60', '200')]


def value_at(r, k):
    try:
        return Q.evaluate(r, *POINTS[k])
    except (ArithmeticError, ValueError, KeyError):
        return None


def rounded(r, f, *ops):
    """error bounds of a rounded operation with exact result r; f(values, errors) is the propagated part"""
    if all(o.err is None for o in ops) and r.constant() is not None:
        return None
    out = []
    for k in range(len(POINTS)):
        v = value_at(r, k)
        xs = [value_at(o.r, k) for o in ops]
        es = [Decimal(0) if o.err is None else o.err[k] for o in ops]
        if v is None or any(x is None for x in xs + es):
            out.append(None)
            continue
        try:
            out.append(f(xs, es) + abs(v) * ULP)
        except ArithmeticError:
            out.append(None)
    return out


def err_mul(x, e):
    return abs(x[0]) * e[1] + abs(x[1]) * e[0]


def err_div(x, e):
    return (e[0] + abs(x[0] / x[1]) * e[1]) / abs(x[1])


class Fx(object):
    """a real function of the reduced energy of one level (tag tells levels apart)"""
    __slots__ = ('r', 'tag', 'err')

    def __init__(self, r, tag=None, err=None):
        self.r = r
        self.tag = tag
        self.err = err              # bounds of the accumulated rounding error at POINTS (None: exact)

    def __repr__(self):
        return 'Fx(%r)' % (self.r,)

    @staticmethod
    def of(v):
        if isinstance(v, Fx):
            return v
        if isinstance(v, bool):
            return Fx(Q.Rat.const(int(v)))
        if isinstance(v, (int, float, Fraction)):
            if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
                raise Unknown('non-finite constant')
            return Fx(Q.Rat.const(poly.frac(v)))
        if isinstance(v, Tensor) and v.rank == 0 and not (set(v.scalar_poly()) - {()}):
            return Fx(Q.Rat.const(v.scalar_poly().get((), 0)))
        if isinstance(v, Top):
            raise Unknown(v.why)
        raise Unknown('operand %r' % (v,))

    def join(self, o):
        if self.tag is None or o.tag is None or self.tag == o.tag:
            return self.tag if self.tag is not None else o.tag
        raise Mixed('combines the values of two different levels')

    def sa_binop(self, I, op, o, refl):
        if isinstance(o, Arr):
            return NotImplemented
        o = Fx.of(o)
        a, b = (o, self) if refl else (self, o)
        tag = self.join(o)
        f = None
        if op == 'Add':
            r = a.r.add(b.r)
            f = lambda x, e: e[0] + e[1]
        elif op == 'Sub':
            r = a.r.add(b.r, -1)
            f = lambda x, e: e[0] + e[1]
        elif op == 'Mult':
            r = a.r.mul(b.r)
            f = err_mul
        elif op == 'Div':
            if b.r.zero():
                raise Raised('ZeroDivisionError', I.loc)
            r = a.r.div(b.r)
            f = err_div
        elif op == 'Pow':
            n = b.r.constant()
            if n is None or n.denominator != 1 or abs(n) > 6:
                raise Unknown('power')
            r = Q.C1
            for _ in range(abs(int(n))):
                r = r.mul(a.r)
            if n < 0:
                r = Q.C1.div(r)
            return Fx(r, tag, rounded(r, lambda x, e: abs(n * x[0] ** (int(n) - 1)) * e[0], a))
        else:
            raise Unknown('operator %s' % op)
        return Fx(r, tag, rounded(r, f, a, b))

    def sa_neg(self, I):
        return Fx(Q.Rat.const(0).add(self.r, -1), self.tag, self.err)

    def sa_float(self, I):
        return self

    def sa_asarray(self, I, dtype=None):
        return self

    def sa_compare(self, I, op, o, refl):
        o = Fx.of(o)
        a, b = (o, self) if refl else (self, o)
        d = a.r.add(b.r, -1)
        tag = self.join(o)
        c = d.constant()
        if c is not None:
            return {'Lt': c < 0, 'LtE': c <= 0, 'Gt': c > 0, 'GtE': c >= 0, 'Eq': c == 0, 'NotEq': c != 0}[op]
        # multiply by powers of beta > 0 where it occurs as a common factor
        d = strip_beta(d)
        lin = d.linear_x()
        if lin is None:
            s = sign_of(I, d, tag)
            if s is not None:
                return {'Lt': s < 0, 'LtE': s <= 0, 'Gt': s > 0, 'GtE': s >= 0, 'Eq': s == 0, 'NotEq': s != 0}[op]
            key = ('ftcmp', tag, op, d.key())
            I.ftcmp[key] = (d, op, tag)
            return Cond(key, False)
        k, c = lin
        if op in ('Eq', 'NotEq'):
            return op == 'NotEq'            # a single point: the closed intervals of the neighbours cover it
        t = -c / k
        less = (op in ('Lt', 'LtE')) == (k > 0)
        lo, hi = x_range(I, tag)
        if hi is not None and hi <= t:
            return less
        if lo is not None and lo >= t:
            return not less
        return Cond(('xlt', tag, t), not less)

    def sa_fn(self, I, name):
        one = Q.C1
        if name == 'exp':
            return self.exp(I)
        if name == 'expm1':
            r = self.exp(I).r.add(one, -1)
            return Fx(r, self.tag, rounded(r, lambda x, e: x[0].exp() * e[0], self))
        if name == 'log':
            r = Q.log(self.r)
            return Fx(r, self.tag, rounded(r, lambda x, e: e[0] / abs(x[0]), self))
        if name == 'log1p':
            r = Q.log(self.r.add(one))
            return Fx(r, self.tag, rounded(r, lambda x, e: e[0] / abs(1 + x[0]), self))
        if name == 'sqrt':
            return Fx(Q.atom('sqrt', self.r), self.tag)
        if name == 'expit':
            e = Q.exp(self.r)
            r = e.div(e.add(one))
            return Fx(r, self.tag, rounded(r, lambda x, e: e[0] / (x[0].exp() + 2 + (-x[0]).exp()), self))
        if name == 'tanh':
            e = Q.exp(self.r.add(self.r))
            r = e.add(one, -1).div(e.add(one))
            return Fx(r, self.tag, rounded(r, lambda x, e: e[0] / (x[0].exp() + (-x[0]).exp()) ** 2 * 4, self))
        if name in ('cosh', 'sinh'):
            r = Q.exp(self.r).add(Q.exp(Q.Rat.const(0).add(self.r, -1)), 1 if name == 'cosh' else -1).mul(Q.Rat.const(Fraction(1, 2)))
            return Fx(r, self.tag, rounded(r, lambda x, e: x[0].exp() * e[0] + (-x[0]).exp() * e[0], self))
        if name in ('abs', 'absolute', 'fabs'):
            neg = self.sa_compare(I, 'Lt', 0, False)
            return self.sa_neg(I) if I.truth(neg) else self
        if name in ('conj', 'conjugate', 'real', 'positive'):
            return self
        if name == 'negative':
            return self.sa_neg(I)
        if name == 'square':
            return self.sa_binop(I, 'Mult', self, False)
        if name == 'reciprocal':
            return self.sa_binop(I, 'Div', 1, True)
        raise Unknown('function %s' % name)

    def exp(self, I):
        lin = self.r.linear_x()
        if lin is None:
            d = strip_beta(self.r)
            if d.vars() <= {'x'}:
                raise Unknown('exponential of a nonlinear function')
            if 'L' not in d.vars():
                r = Q.exp(self.r)
                return Fx(r, self.tag, rounded(r, lambda x, e: x[0].exp() * e[0], self))
        else:
            k, c = lin
            lo, hi = x_range(I, self.tag)
            end = hi if k > 0 else lo
            if k and (end is None or k * end + c > EXP_MAX):
                I.overflow.append((I.loc, 'exp(%gx%s) overflows for x %s' % (
                    k, '%+g' % c if c else '', ('above' if k > 0 else 'below') + ' %g' % float((EXP_MAX - c) / k)),
                    self.tag, k, c))
        r = Q.exp(self.r)
        return Fx(r, self.tag, rounded(r, lambda x, e: x[0].exp() * e[0], self))

    def sa_getattr(self, I, name):
        if name == 'shape':
            return ()
        if name == 'ndim':
            return 0
        if name == 'dtype':
            return DType('f')
        if name in ('real',):
            return self
        if name in ('item', 'copy', 'conj', 'conjugate'):
            return Native(name, lambda I, *a: self)
        raise Unknown('attribute %s' % name)

    def sa_promote(self, I, o, idx):
        promote(I, o, idx, self)


def promote(I, o, idx, v):
    """store into a freshly allocated array of known length"""
    t = o.read()
    if o.base is not None or not isinstance(t, Tensor) or t.rank != 1 or any(s != poly.ONE for s in t.axes[0]):
        raise Unknown('array element assignment')
    vals = []
    for k in range(len(t.axes[0])):
        p = t.blocks.get((k,), {})
        if set(p) - {()}:
            raise Unknown('array contents')
        vals.append(Fx(Q.Rat.const(p.get((), 0))))
    FVec(vals).sa_setindex(I, o, idx, v, first=True)


class Mixed(AbsError):
    def __init__(self, msg):
        AbsError.__init__(self, msg)


def strip_beta(d):
    """d divided by the common power of beta (beta > 0)"""
    def common(p):
        return min(dict(k).get('b', 0) for k in p)

    def divide(p, n):
        return {Q.mmul(k, (('b', -n),)) if n else k: v for k, v in p.items()}
    if not d.n:
        return d
    return Q.Rat(divide(d.n, common(d.n)), divide(d.d, common(d.d)))


def x_range(I, tag):
    lo = hi = None
    o = I.cur_oracle()
    for key, v in (o.guards if o is not None else ()):
        if key[0] == 'xlt' and key[1] == tag:
            t = key[2]
            if v and (hi is None or t < hi):
                hi = t
            if not v and (lo is None or t > lo):
                lo = t
    return lo, hi


def sign_of(I, d, tag):
    """sign of simple positive expressions"""
    if all(v > 0 for v in d.n.values()) and all(v > 0 for v in d.d.values()) and d.vars() <= {'E', 'b', 'L'}:
        return 1
    if all(v < 0 for v in d.n.values()) and all(v > 0 for v in d.d.values()) and d.vars() <= {'E', 'b', 'L'}:
        return -1
    return None


class FVec(object):
    """one-dimensional array of known length of such functions"""
    def __init__(self, vals):
        self.vals = list(vals)

    def index(self, idx):
        if isinstance(idx, tuple) and len(idx) == 1:
            idx = idx[0]
        if isinstance(idx, int) and not isinstance(idx, bool):
            if not -len(self.vals) <= idx < len(self.vals):
                raise Raised('IndexError', None)
            return idx % len(self.vals)
        if isinstance(idx, slice) and all(x is None or isinstance(x, int) for x in (idx.start, idx.stop, idx.step)):
            return list(range(len(self.vals))[idx])
        if idx is Ellipsis:
            return list(range(len(self.vals)))
        if isinstance(idx, Arr) and isinstance(idx.read(), FMask):
            return [k for k, b in enumerate(idx.read().vals) if b]
        raise Unknown('index')

    def sa_index(self, I, o, idx):
        k = self.index(idx)
        if isinstance(k, int):
            return self.vals[k]
        if isinstance(idx, Arr):
            return Arr(FVec([self.vals[i] for i in k]), depth=I.depth)
        return I.view(o, lambda b: FVec([b.vals[i] for i in k]), None)

    def sa_setindex(self, I, o, idx, v, first=False):
        k = self.index(idx)
        ks = [k] if isinstance(k, int) else k
        vals = [v] * len(ks)
        if isinstance(v, Arr):
            r = v.read()
            if not isinstance(r, FVec):
                raise Unknown('array value')
            if len(r.vals) != len(ks) and len(r.vals) != 1:
                raise AbsError('shapes differ', I.loc)
            vals = r.vals if len(r.vals) == len(ks) else r.vals * len(ks)
        new = list(self.vals)
        for i, x in zip(ks, vals):
            new[i] = Fx.of(x)
        if o.base is not None:
            raise Unknown('write through a view')
        if o.origin:
            I.effect(o.origin, 'array element written')
        o.val = FVec(new)

    def zip(self, I, a, b, f):
        va = a.read().vals if isinstance(a, Arr) and isinstance(a.read(), FVec) else None
        vb = b.read().vals if isinstance(b, Arr) and isinstance(b.read(), FVec) else None
        n = len(va if va is not None else vb)
        if va is None:
            va = lift(a, n)
        if vb is None:
            vb = lift(b, n)
        if len(va) != len(vb):
            raise AbsError('operands have different lengths', I.loc)
        return [f(Fx.of(x), Fx.of(y)) for x, y in zip(va, vb)]

    def sa_array_binop(self, I, op, a, b):
        return Arr(FVec(self.zip(I, a, b, lambda x, y: x.sa_binop(I, op, y, False))), depth=I.depth)

    def sa_array_compare(self, I, op, a, b):
        return Arr(FMask([bool(I.truth(c)) for c in self.zip(I, a, b, lambda x, y: x.sa_compare(I, op, y, False))]),
                   depth=I.depth)

    def sa_fn(self, I, name):
        return Arr(FVec([x.sa_fn(I, name) for x in self.vals]), depth=I.depth)

    def sa_len(self, I):
        return len(self.vals)

    def sa_elems(self, I):
        return list(self.vals)

    def sa_sum(self, I, a, axis=None):
        raise Unknown('sum of levels')

    def sa_promote(self, I, o, idx):
        promote(I, o, idx, Arr(self, depth=I.depth))

    def sa_arrattr(self, I, a, name):
        if name == 'shape':
            return (len(self.vals),)
        if name == 'size':
            return len(self.vals)
        if name == 'ndim':
            return 1
        if name == 'dtype':
            return DType('f')
        if name in ('T', 'real'):
            return a
        if name in ('copy', 'astype', 'flatten', 'ravel', 'conj', 'tolist'):
            return Native(name, lambda I, *x, **k: Arr(FVec(self.vals), depth=I.depth))
        raise Unknown('attribute %s' % name)


class FMask(object):
    def __init__(self, vals):
        self.vals = vals

    def sa_array_binop(self, I, op, a, b):
        f = {'BitAnd': lambda x, y: x and y, 'BitOr': lambda x, y: x or y, 'BitXor': lambda x, y: x != y}.get(op)
        va, vb = a.read(), b.read()
        if f is None or not isinstance(va, FMask) or not isinstance(vb, FMask):
            raise Unknown('mask operation')
        return Arr(FMask([f(x, y) for x, y in zip(va.vals, vb.vals)]), depth=I.depth)

    def sa_arrattr(self, I, a, name):
        if name == 'shape':
            return (len(self.vals),)
        if name == 'any':
            return Native(name, lambda I: any(self.vals))
        if name == 'all':
            return Native(name, lambda I: all(self.vals))
        raise Unknown('attribute %s' % name)

    def sa_fn(self, I, name):
        if name in ('logical_not', 'invert'):
            return Arr(FMask([not v for v in self.vals]), depth=I.depth)
        raise Unknown('mask function')


def lift(v, n):
    if isinstance(v, Arr):
        t = v.read()
        if isinstance(t, Tensor) and t.rank == 1 and len(t.axes[0]) == n:
            out = []
            for k in range(n):
                p = t.blocks.get((k,), {})
                if set(p) - {()}:
                    raise Unknown('array contents')
                out.append(Fx(Q.Rat.const(p.get((), 0))))
            return out
        raise Unknown('array operand')
    return [v] * n


def w_where(I, c, *ab):
    from . import npmodel
    if len(ab) == 2:
        a, b = ab
        if isinstance(c, Arr) and isinstance(c.read(), FMask):
            m = c.read().vals
            va = a.read().vals if isinstance(a, Arr) and isinstance(a.read(), FVec) else lift(a, len(m))
            vb = b.read().vals if isinstance(b, Arr) and isinstance(b.read(), FVec) else lift(b, len(m))
            return Arr(FVec([Fx.of(x if s else y) for s, x, y in zip(m, va, vb)]), depth=I.depth)
        if isinstance(a, Fx) or isinstance(b, Fx):
            return a if I.truth(c) else b
    return npmodel.np_where(I, c, *ab)


def minmax(which):
    def f(I, a, b, **kw):
        def one(x, y):
            x, y = Fx.of(x), Fx.of(y)
            lt = I.truth(x.sa_compare(I, 'Lt', y, False))
            return x if lt == (which == 'min') else y
        vec = [v for v in (a, b) if isinstance(v, Arr) and isinstance(v.read(), FVec)]
        if vec:
            return Arr(FVec(vec[0].read().zip(I, a, b, one)), depth=I.depth)
        if isinstance(a, Fx) or isinstance(b, Fx):
            return one(a, b)
        raise Unknown('elementwise extremum')
    return f


def logaddexp(I, a, b):
    def one(x, y):
        x, y = Fx.of(x), Fx.of(y)
        return Fx(Q.log(Q.exp(x.r).add(Q.exp(y.r))), x.join(y))
    vec = [v for v in (a, b) if isinstance(v, Arr) and isinstance(v.read(), FVec)]
    if vec:
        return Arr(FVec(vec[0].read().zip(I, a, b, one)), depth=I.depth)
    return one(a, b)


def clip(I, a, lo, hi, **kw):
    if lo is not None:
        a = minmax('max')(I, a, lo)
    if hi is not None:
        a = minmax('min')(I, a, hi)
    return a


def array_of(I, vals, dtype):
    if vals and any(isinstance(v, Fx) for v in vals):
        return Arr(FVec([Fx.of(v) for v in vals]), depth=I.depth)
    return None


def level(tag):
    return Fx(Q.M.add(Q.X.div(Q.B)), tag)


def ones_like(I, a, dtype=None, **kw):
    from . import npmodel
    if isinstance(a, Arr) and isinstance(a.read(), FVec):
        return Arr(FVec([Fx(Q.Rat.const(0)) for _ in a.read().vals]), depth=I.depth)
    return npmodel.NUMPY['zeros_like'](I, a, dtype=dtype, **kw)


def vectorize(I, f, **kw):
    def g(I, *args):
        n = [len(a.read().vals) for a in args if isinstance(a, Arr) and isinstance(a.read(), FVec)]
        if n:
            cols = [a.read().vals if isinstance(a, Arr) and isinstance(a.read(), FVec) else [a] * n[0] for a in args]
            return Arr(FVec([Fx.of(I.call(f, list(row), {})) for row in zip(*cols)]), depth=I.depth)
        arrs = [a for a in args if isinstance(a, Arr)]
        if len(arrs) == 1 and isinstance(arrs[0].read(), Tensor) and arrs[0].read().rank == 1:
            t = arrs[0].read()
            vals = []
            from .interp import Binder
            raise Unknown('vectorize over a symbolic array')
        raise Unknown('vectorize')
    return Native('vectorized', g)


class FRunner(Runner):
    def __init__(self, s):
        Runner.__init__(self, s)
        I = self.I
        I.overflow = []
        I.ftcmp = {}
        I.array_hook = array_of
        I.ext.update({'numpy.where': w_where, 'numpy.maximum': minmax('max'), 'numpy.minimum': minmax('min'),
                      'numpy.fmax': minmax('max'), 'numpy.fmin': minmax('min'), 'numpy.logaddexp': logaddexp,
                      'numpy.clip': clip, 'numpy.zeros_like': ones_like, 'numpy.empty_like': ones_like,
                      'numpy.vectorize': vectorize})
        for a in ASSUME_FT:
            if a not in s.assumptions:
                s.assumptions.append(a)

    def function(self, got, ref, scale, tol, label, tag, limits=(None, None)):
        """messages when the Fx value differs from ref(x)/beta**scale by more than tol times the deviation from the
        zero-temperature limit (limits: the limit for negative and for positive x, nothing for zero) on the current path"""
        if isinstance(got, Top):
            raise Unknown(got.why)
        if isinstance(got, Arr) and isinstance(got.read(), FVec) and len(got.read().vals) == 1:
            got = got.read().vals[0]
        g = Fx.of(got)
        if g.tag is not None and g.tag != tag:
            return ['%s is computed from level %s' % (label, g.tag)]
        want = ref
        for _ in range(scale):
            want = want.div(Q.B)
        lo, hi = x_range(self.I, tag)
        self.s.bump('branches_bounded')
        diff = g.r.add(want, -1)
        if diff.zero():
            return self.lost(g, want, label, tag, lo, hi, scale)
        where = 'for x in [%s, %s]' % ('-inf' if lo is None else '%g' % float(lo), 'inf' if hi is None else '%g' % float(hi))
        # beta and mu must cancel in the relative difference
        ratio = diff
        for _ in range(scale):
            ratio = ratio.mul(Q.B)
        ratio = strip_common(ratio)
        ok = not (ratio.vars() & {'b', 'm'})
        thermal = [ref if l is None else ref.add(l, -1) for l in limits]
        if ok:
            pieces = []
            if lo is None or lo < 0:
                pieces.append((False, (0 if hi is None or hi > 0 else -hi), None if lo is None else -lo))
            if hi is None or hi > 0:
                pieces.append((True, (0 if lo is None or lo < 0 else lo), hi))
            if all(Q.relative_bound(ratio, thermal[pos], pos, a, b, tol) or Q.relative_bound(ratio, ref, pos, a, b, TINY)
                   for pos, a, b in pieces):
                return self.lost(g, want, label, tag, lo, hi, scale)
        # look for a definite counterexample on this branch
        pts = sample(lo, hi)
        for x in pts:
            for b, m in BETAS:
                try:
                    if not feasible(self.I, tag, x, b, m):
                        continue
                    h = Q.evaluate(want, x, b, m)
                    d = Q.evaluate(diff, x, b, m)
                    t = Q.evaluate(thermal[x > 0], x, b, m) / b ** scale
                except (ArithmeticError, ValueError, KeyError):
                    continue
                if h != 0 and abs(d) > dec(tol) * abs(t) * Decimal('1.000001') + dec(TINY) * abs(h):
                    return ['%s is %s %s, which differs from %s by a relative %.3g (%.3g of the deviation from the '
                            'zero-temperature limit) at x = %g'
                            % (label, short(g.r), where, short(want), float(abs(d / h)), float(abs(d / t)) if t else float('inf'), float(x))]
        raise Unknown('%s: difference %s %s could not be bounded' % (label, short(diff), where))


    def lost(self, g, want, label, tag, lo, hi, scale):
        """a result of which too many significant digits are lost to cancellation somewhere on this branch"""
        for k, (x, b, m) in enumerate(POINTS):
            if g.err is None or g.err[k] is None or (lo is not None and x < dec(lo)) or (hi is not None and x > dec(hi)) \
                    or not feasible(self.I, tag, x, b, m):
                continue
            v = value_at(want, k)
            if v is not None and v != 0 and g.err[k] > abs(v) * dec(LOST[scale]):
                return ['%s: the value %.3g at x = %g is a difference of nearly equal numbers; its rounding error is as '
                        'large as %.3g' % (label, float(v), float(x), float(g.err[k]))]
        return []


# relative rounding error taken as loss: the Fermi functions need no difference of nearly equal numbers, the potentials lose
# ten digits where their branches meet
LOST = {0: Fraction(1, 10**7), 1: Fraction(1, 10**4), 2: Fraction(1, 10**4)}
TINY = Fraction(4, 10**16)                                # below the spacing of double precision numbers


def dec(q):
    return Decimal(q.numerator) / Decimal(q.denominator)


BETAS = tuple((Decimal(b), Decimal(m)) for b, m in (('1', '0'), ('2.5', '-0.75'), ('0.01', '0.2'), ('400', '0.3')))


def strip_common(r):
    """cancel common powers of beta between numerator and denominator"""
    def low(p):
        return min(dict(k).get('b', 0) for k in p)
    if not r.n:
        return r
    n = min(low(r.n), low(r.d))
    if not n:
        return r
    f = (('b', -n),)
    return Q.Rat({Q.mmul(k, f): v for k, v in r.n.items()}, {Q.mmul(k, f): v for k, v in r.d.items()})


def overflows(I):
    """overflowing exponentials met on the current path, with a feasible witness"""
    out = []
    for loc, what, tag, k, c in I.overflow:
        lo, hi = x_range(I, tag)
        xs = [Decimal(str(float((EXP_MAX + d - c) / k))) for d in (1, 50, 5000)]
        if hi is not None and k > 0:
            xs.append(Decimal(str(float(hi))))
        if lo is not None and k < 0:
            xs.append(Decimal(str(float(lo))))
        for x in xs:
            if (lo is not None and x < lo) or (hi is not None and x > hi):
                continue
            if any(feasible(I, tag, x, b, m) for b, m in BETAS):
                out.append('%s (line %d of %s)' % (what, loc[2], loc[1]))
                break
        else:
            raise Unknown(what)
    return out


def feasible(I, tag, x, b, m):
    o = I.cur_oracle()
    for key, v in (o.guards if o is not None else ()):
        if key[0] == 'xlt' and key[1] == tag:
            if (x < Decimal(key[2].numerator) / Decimal(key[2].denominator)) != v \
                    and x != Decimal(key[2].numerator) / Decimal(key[2].denominator):
                return False
        elif key[0] == 'ftcmp' and key[1] == tag:
            d, op, _ = I.ftcmp[key]
            z = Q.evaluate(d, x, b, m)
            if {'Lt': z < 0, 'LtE': z <= 0, 'Gt': z > 0, 'GtE': z >= 0, 'Eq': z == 0, 'NotEq': z != 0}[op] != v:
                return False
        elif key[0] == '?':
            return False
    return True


def short(r):
    s = repr(r)
    return s if len(s) < 160 else s[:157] + '...'


def sample(lo, hi):
    out = []
    if lo is not None and hi is not None:
        out = [lo + (hi - lo) * Fraction(k, 16) for k in range(17)]
    elif lo is not None:
        out = [lo + Fraction(d) for d in ('0', '0.01', '0.5', '1', '3', '10', '40', '200')]
    elif hi is not None:
        out = [hi - Fraction(d) for d in ('0', '0.01', '0.5', '1', '3', '10', '40', '200')]
    else:
        out = [Fraction(k) for k in (-300, -60, -25, -7, -1, 0, 1, 7, 25, 60, 300)]
    return [Decimal(x.numerator) / Decimal(x.denominator) for x in out if x or True]


FERMI = Q.C1.div(Q.E.add(Q.C1))
VFERMI = Q.E.div(Q.E.add(Q.C1))
GPOT = Q.X.add(Q.L, -1)                                   # beta * Omega
DGPOT = Q.L.add(Q.X, -1).add(Q.X.mul(FERMI))              # beta^2 * dOmega/dbeta

SCALAR = {'fermi_function': (FERMI, 0, Fraction(1, 10**12), (Q.C1, None)),
          'vfermi_function': (VFERMI, 0, Fraction(1, 10**12), (None, Q.C1)),
          'grand_potential0': (GPOT, 1, Fraction(1, 10**8), (Q.X, None)),
          'dgrand_potential0': (DGPOT, 2, Fraction(1, 10**8), (None, None))}

RF = 'on every branch the returned function equals the defining one within the stated relative error; no exponential overflows'


def scalar_check(s, names, rule):
    R = FRunner(s)
    I = R.I
    for fn in names:
        ref, scale, tol, limits = SCALAR[fn]

        def args():
            I.overflow = []
            return (Fx(Q.B), level('e'), Fx(Q.M))

        def ver(r):
            out = R.function(r, ref, scale, tol, fn, 'e', limits)
            return out or overflows(I)
        R.run('ft_utils', fn, args, ver, rule, strict=True)


def c30(s):
    scalar_check(s, ('fermi_function', 'vfermi_function'), RF)


def c31(s):
    scalar_check(s, ('grand_potential0', 'dgrand_potential0'), RF)


# ---------------------------------------------------------------- vector helpers

RV = 'element i of the result is the scalar function of energy i, for every length'
VECTOR = {'ff': 'fermi_function', 'ffv': 'vfermi_function', 'GP0': 'grand_potential0', 'dGP0': 'dgrand_potential0'}


def opaque_scalar(name):
    def f(I, args, kwargs):
        vals = list(args)
        for k in ('beta', 'epsilon', 'mu')[len(vals):]:
            if k in kwargs:
                vals.append(kwargs[k])
        if len(vals) != 3 or not isinstance(vals[1], (Tensor, Arr)):
            raise Unknown('arguments of %s' % name)
        b, m = I.to_tensor(vals[0]), I.to_tensor(vals[2])
        if not (poly.pequal(b.scalar_poly(), I.ft_beta) and poly.pequal(m.scalar_poly(), I.ft_mu)):
            raise AbsError('%s is called with another inverse temperature or chemical potential' % name, I.loc)
        t = I.to_tensor(vals[1])
        if t.rank:
            raise Unknown('scalar function applied to an array')
        return T.elementwise('!' + name, t, 'f')
    return f


def c32(s):
    R = FRunner(s)
    I = R.I
    beta, mu = T.sym_scalar('beta'), T.sym_scalar('mu')
    I.ft_beta, I.ft_mu = beta.scalar_poly(), mu.scalar_poly()
    n, na, nb = space('n'), space('na'), space('nb')

    def energies(name, sp):
        a = Arr(T.atom_tensor(name, [sp], kind='f', real=True))
        a.origin = 'argument ' + name
        return a
    e, ea, eb = energies('eps', n), energies('ea', na), energies('eb', nb)

    def opaque(on):
        for f in VECTOR.values():
            key = 'cqcpy.ft_utils.' + f
            if on:
                I.overrides[key] = opaque_scalar(f)
            else:
                I.overrides.pop(key, None)

    def fixed(tags):
        a = Arr(FVec([level(t) for t in tags]))
        a.origin = 'argument epsilon'
        return a

    def vec_ver(r, tags, fn, label):
        ref, scale, tol, limits = SCALAR[fn]
        if not isinstance(r, Arr):
            raise Unknown('result')
        v = r.read()
        if isinstance(v, Tensor) and v.rank == 1 and all(x == poly.ONE for x in v.axes[0]):
            v = FVec(lift(r, len(v.axes[0])))
        if not isinstance(v, FVec):
            raise Unknown('result')
        if len(v.vals) != len(tags):
            return ['%s has %d elements instead of %d' % (label, len(v.vals), len(tags))]
        out = []
        for k, (x, t) in enumerate(zip(v.vals, tags)):
            out += R.function(x, ref, scale, tol, '%s[%d]' % (label, k), t, limits)
        return out

    def both(fn, symargs, symver, *fixed):
        # symbolic length with the scalar function as an uninterpreted one; a fixed length if that does not settle it
        opaque(True)
        k = len(s.obligations)
        v = len(s.violations)
        R.run('ft_utils', fn, symargs, symver, RV, ' (every length)', strict=True)
        opaque(False)
        if len(s.obligations) > k and s.obligations[k][1] != 'ok' and s.mode == 'value':
            first = s.obligations[k]
            bad = s.violations[v:]
            del s.obligations[k:]
            del s.violations[v:]
            for text, fixargs, fixver in fixed:
                R.run('ft_utils', fn, fixargs, fixver, RV, text, strict=True)
            if first[1] == 'violation' and all(o[1] == 'undecided' for o in s.obligations[k:]):
                del s.obligations[k:]
                s.obligations.append(first)
                s.violations += bad
    for fn, sc in VECTOR.items():
        want = T.elementwise('!' + sc, e.read(), 'f')
        both(fn, lambda: (beta, e, mu), lambda r: R.tensor(r, want, fn),
             *[(' (%d levels)' % len(ts), lambda ts=ts: (Fx(Q.B), fixed(ts), Fx(Q.M)),
                lambda r, ts=ts: vec_ver(r, ts, sc, fn)) for ts in (['e0', 'e1'], ['e0'])])
        # energies given as integers
        ei = Arr(T.atom_tensor('eps', [n], kind='i', real=True))
        ei.origin = 'argument epsilon'
        opaque(True)
        R.run('ft_utils', fn, lambda: (beta, ei, mu), lambda r: R.tensor(r, want, fn), RV, ' (integer energies)', strict=True)
        opaque(False)
    wa = T.elementwise('!grand_potential0', ea.read(), 'f')
    wb = T.elementwise('!grand_potential0', eb.read(), 'f')

    def pair(r, f):
        vals = I.concrete_iter(r) if not isinstance(r, tuple) else r
        if len(vals) != 2:
            return ['%d results instead of 2' % len(vals)]
        return f(vals)
    both('uGP0', lambda: (beta, ea, eb, mu), lambda r: pair(r, lambda v: R.tensor(v[0], wa, 'alpha') + R.tensor(v[1], wb, 'beta')),
         *[(' (%d alpha and %d beta levels)' % (len(ta), len(tb)),
            lambda ta=ta, tb=tb: (Fx(Q.B), fixed(ta), fixed(tb), Fx(Q.M)),
            lambda r, ta=ta, tb=tb: pair(r, lambda v: vec_ver(v[0], ta, 'grand_potential0', 'alpha')
                                         + vec_ver(v[1], tb, 'grand_potential0', 'beta')))
           for ta, tb in ((['e0', 'e1'], ['e2']), (['e0'], ['e1', 'e2']), (['e0'], ['e1']), (['e0', 'e1'], ['e2', 'e3']))])
    # unit conversion
    t = T.sym_scalar('kT')
    exact = Fraction('315775.02480407')

    def vK(r):
        p = I.to_tensor(r).scalar_poly()
        (k, _), = t.scalar_poly().items()
        if set(p) != {k}:
            return ['the conversion is not a multiplication: %s' % poly.show(p)]
        c = p[k]
        if abs(c / exact - 1) > Fraction(1, 10**6):
            return ['conversion factor %.9g instead of %.9g K per Hartree' % (float(c), float(exact))]
        return []
    R.run('ft_utils', 'HtoK', lambda: (t,), vK, 'the result is the argument times Hartree/k_B (relative error 1e-6)')
