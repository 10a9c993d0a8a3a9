"""Functions of one real variable x built from rational operations, exp and log, in an exact normal form.

A value is a quotient of two polynomials in the generators
    x            the reduced energy beta*(epsilon - mu)
    b, m         beta and mu (epsilon is m + x/b)
    E            exp(x)
    L            log(1 + exp(x))
    other atoms  logarithms of other polynomials in E, absolute values ...
Equality is decided by cross multiplication.  Bounds on half-lines are derived by substituting y = exp(-|x|) and
log(1 + y) = y - r y^2 with 1/2 - y/3 <= r <= 1/2 and interval evaluation.
"""
import math
from decimal import Decimal, getcontext
from fractions import Fraction

from .tensor import Unknown

getcontext().prec = 60
ONE = {(): Fraction(1)}


def padd(p, q, c=1):
    r = dict(p)
    for k, v in q.items():
        w = r.get(k, 0) + v * c
        if w:
            r[k] = w
        else:
            r.pop(k, None)
    return r


def mmul(a, b):
    d = dict(a)
    for v, n in b:
        d[v] = d.get(v, 0) + n
    return tuple(sorted((v, n) for v, n in d.items() if n))


def pmul(p, q):
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            k = mmul(a, b)
            w = r.get(k, 0) + x * y
            if w:
                r[k] = w
            else:
                r.pop(k, None)
    return r


def ppow(p, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, p)
    return r


def pvars(p):
    return {v for k in p for v, n in k}


# ---- univariate helpers (polynomials in E)

def to_uni(p, v='E'):
    out = []
    for k, c in p.items():
        d = dict(k)
        n = d.pop(v, 0)
        if d or n < 0:
            return None
        while len(out) <= n:
            out.append(Fraction(0))
        out[n] += c
    while out and not out[-1]:
        out.pop()
    return out


def from_uni(u, v='E'):
    return {((v, n),) if n else (): c for n, c in enumerate(u) if c}


def udivmod(a, b):
    a = list(a)
    q = [Fraction(0)] * max(0, len(a) - len(b) + 1)
    while len(a) >= len(b) and a:
        c = a[-1] / b[-1]
        s = len(a) - len(b)
        q[s] = c
        for i, x in enumerate(b):
            a[s + i] -= c * x
        a.pop()
        while a and not a[-1]:
            a.pop()
    return q, a


def ugcd(a, b):
    while b:
        a, b = b, udivmod(a, b)[1]
    return [x / a[-1] for x in a] if a else a


def halves(p):
    """H = exp(x/2): even powers written through E"""
    if not any(v == 'H' and e not in (0, 1) for k in p for v, e in k):
        return p
    r = {}
    for k, c in p.items():
        m = dict(k)
        h = m.pop('H', 0)
        q = tuple(sorted(m.items()))
        if h // 2:
            q = mmul(q, (('E', h // 2),))
        if h % 2:
            q = mmul(q, (('H', 1),))
        r[q] = r.get(q, 0) + c
    return {k: c for k, c in r.items() if c}


class Rat(object):
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        d = ONE if d is None else d
        if not d:
            raise ZeroDivisionError
        if any(v == 'H' for p in (n, d) for k in p for v, _ in k):
            n, d = halves(n), halves(d)
            if d and all(dict(k).get('H') for k in d):
                h = {(('H', 1),): Fraction(1)}
                n, d = halves(pmul(n, h)), halves(pmul(d, h))
            low = min(dict(k).get('E', 0) for p in (n, d) for k in p)
            if low < 0:
                n, d = ({mmul(k, (('E', -low),)): c for k, c in p.items()} for p in (n, d))
            if not d:
                raise ZeroDivisionError
        if len(d) == 1:
            (k, c), = d.items()
            if k:
                inv = tuple((v, -e) for v, e in k)
                n = {mmul(a, inv): x / c for a, x in n.items()}
                # keep exponents of variables non-negative in both parts
                low = {}
                for a in n:
                    for v, e in a:
                        if e < 0:
                            low[v] = min(low.get(v, 0), e)
                if low:
                    up = tuple(sorted((v, -e) for v, e in low.items()))
                    n = {mmul(a, up): x for a, x in n.items()}
                    d = {up: Fraction(1)}
                else:
                    d = ONE
            else:
                n = {a: x / c for a, x in n.items()}
                d = ONE
        else:
            un, ud = to_uni(n), to_uni(d)
            if un is not None and ud is not None and un:
                g = ugcd(un, ud)
                if len(g) > 1:
                    n, d = from_uni(udivmod(un, g)[0]), from_uni(udivmod(ud, g)[0])
        if not n:
            d = ONE
        self.n, self.d = n, d

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Rat({(): c} if c else {})

    @staticmethod
    def var(v):
        return Rat({((v, 1),): Fraction(1)})

    def add(self, o, c=1):
        if self.d == o.d:
            return Rat(padd(self.n, o.n, c), self.d)
        return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d), c), pmul(self.d, o.d))

    def mul(self, o):
        return Rat(pmul(self.n, o.n), pmul(self.d, o.d))

    def div(self, o):
        if not o.n:
            raise ZeroDivisionError
        return Rat(pmul(self.n, o.d), pmul(self.d, o.n))

    def zero(self):
        return not self.n

    def constant(self):
        """Fraction value of a constant, or None"""
        if not self.n:
            return Fraction(0)
        if self.d == ONE and list(self.n) == [()]:
            return self.n[()]
        return None

    def vars(self):
        return pvars(self.n) | pvars(self.d)

    def key(self):
        # normalise the leading coefficient of the denominator
        lead = self.d[max(self.d)]
        return (tuple(sorted((k, v / lead) for k, v in self.n.items())), tuple(sorted((k, v / lead) for k, v in self.d.items())))

    def linear_x(self):
        """(a, c) when the value is a*x + c with constant rational a, c; else None"""
        if self.d != ONE:
            return None
        a = c = Fraction(0)
        for k, v in self.n.items():
            if k == ():
                c = v
            elif k == (('x', 1),):
                a = v
            else:
                return None
        return a, c

    def __repr__(self):
        return '(%s)/(%s)' % (show(self.n), show(self.d)) if self.d != ONE else show(self.n)


def show(p):
    out = []
    for k, v in sorted(p.items()):
        f = float(v) if v.denominator != 1 else int(v)
        out.append('%+g' % f + ''.join('*%s%s' % (a, '^%d' % n if n != 1 else '') for a, n in k))
    return ' '.join(out) or '0'


X, B, M = Rat.var('x'), Rat.var('b'), Rat.var('m')
E, L = Rat.var('E'), Rat.var('L')
C1 = Rat.const(1)
ATOMS = {}       # name -> (function name, Rat argument)


def exp(a):
    """exp of a Rat; (value, linear argument or None)"""
    lin = a.linear_x()
    if lin is not None:
        k, c = lin
        if k.denominator == 2 and c == 0:
            return exp(X.mul(Rat.const((k.numerator - 1) // 2))).mul(Rat.var('H'))
        if k.denominator == 1 and c == 0:
            k = int(k)
            return Rat({((('E', k),) if k > 0 else ()): Fraction(1)}, ONE if k >= 0 else {(('E', -k),): Fraction(1)})
    if a.d == ONE and a.vars() <= {'x', 'L'}:
        # exp(i x + j L) = E^i (E+1)^j
        r = C1
        for k, v in a.n.items():
            if k not in ((('x', 1),), (('L', 1),)) or v.denominator != 1:
                break
            base = E if k[0][0] == 'x' else E.add(C1)
            for _ in range(abs(int(v))):
                r = r.mul(base) if v > 0 else r.div(base)
        else:
            return r
    return atom('exp', a)


def atom(fn, a):
    name = '%s#%s' % (fn, repr(a.key()))
    ATOMS[name] = (fn, a)
    return Rat.var(name)


def log(a):
    un, ud = to_uni(a.n), to_uni(a.d)
    if un is None or ud is None or not un:
        return atom('log', a)
    out = Rat.const(0)
    for u, sign in ((un, 1), (ud, -1)):
        while u and not u[0]:
            u = u[1:]
            out = out.add(X, sign)
        while len(u) > 1:
            q, r = udivmod(u, [Fraction(1), Fraction(1)])
            if r:
                break
            u = q
            out = out.add(L, sign)
        c = u[-1]
        if len(u) > 1:
            u = [x / c for x in u]
            out = out.add(atom('log', Rat(from_uni(u))), sign)
        if c != 1:
            if c < 0:
                return atom('log', a)
            out = out.add(atom('log', Rat.const(c)), sign)
    return out


# ---------------------------------------------------------------- numeric evaluation of a normal form

def evaluate(r, x, b=Decimal(1), m=Decimal(0)):
    x = Decimal(x)
    env = {'x': x, 'b': Decimal(b), 'm': Decimal(m), 'E': x.exp(), 'H': (x / 2).exp()}
    env['L'] = (1 + env['E']).ln() if x < 0 else x + (1 + (-x).exp()).ln()

    def pol(p):
        s = Decimal(0)
        for k, c in p.items():
            t = Decimal(c.numerator) / Decimal(c.denominator)
            for v, n in k:
                t *= val(v) ** n
            s += t
        return s

    def val(v):
        if v not in env:
            fn, a = ATOMS[v]
            z = pol(a.n) / pol(a.d)
            env[v] = {'exp': lambda: z.exp(), 'log': lambda: z.ln(), 'abs': lambda: abs(z), 'sqrt': lambda: z.sqrt()}[fn]()
        return env[v]
    return pol(r.n) / pol(r.d)


# ---------------------------------------------------------------- interval bounds on half-lines

class Iv(object):
    __slots__ = ('lo', 'hi')

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __add__(self, o):
        return Iv(self.lo + o.lo, self.hi + o.hi)

    def __mul__(self, o):
        v = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi]
        return Iv(min(v), max(v))

    def mag(self):
        return max(abs(self.lo), abs(self.hi))


def frac_exp_bound(z):
    """rational upper bound of exp(z)"""
    return Fraction(Decimal(z.numerator).__truediv__(Decimal(z.denominator)).exp().next_plus()) if isinstance(z, Fraction) \
        else Fraction(Decimal(z).exp())


def tail_poly(p, positive):
    """p(x, E, L) on x > 0 (or x < 0) as {(power of z=|x|, power of y, power of r): coefficient}; None if not possible"""
    if pvars(p) - {'x', 'E', 'L'}:
        return None
    out = {}
    for k, c in p.items():
        d = dict(k)
        nx, ne, nl = d.get('x', 0), d.get('E', 0), d.get('L', 0)
        terms = {(nx, (-ne if positive else ne), 0): c * (1 if positive or nx % 2 == 0 else -1)}
        # L = z + l (x > 0) or l (x < 0), l = y - r y^2
        for _ in range(nl):
            new = {}
            for (a, b, q), v in terms.items():
                add = [((a, b + 1, q), v), ((a, b + 2, q + 1), -v)]
                if positive:
                    add.append(((a + 1, b, q), v))
                for kk, w in add:
                    new[kk] = new.get(kk, 0) + w
            terms = new
        for kk, w in terms.items():
            out[kk] = out.get(kk, 0) + w
            if not out[kk]:
                del out[kk]
    return out


def relative_bound(diff, ref, positive, z0, z1, tol):
    """True when |diff| <= tol*|ref| is proved for z0 <= |x| <= z1 (z1 None: unbounded) on one side of zero"""
    # |diff/ref| = |n1 d2| / |n2 d1|
    num = tail_poly(pmul(diff.n, ref.d), positive)
    den = tail_poly(pmul(ref.n, diff.d), positive)
    if num is None or den is None or not den:
        return False
    if not num:
        return True
    low = min(min(b for a, b, q in num), min(b for a, b, q in den))
    num = {(a, b - low, q): v for (a, b, q), v in num.items()}
    den = {(a, b - low, q): v for (a, b, q), v in den.items()}
    y1 = frac_exp_bound(Fraction(-z0))
    y = Iv(Fraction(0), y1)
    r = Iv(Fraction(1, 2) - y1 / 3, Fraction(1, 2))

    def coeffs(p):
        # factor out the lowest power of y of the whole polynomial so that leading terms are not lost
        out = {}
        for (a, b, q), v in p.items():
            t = Iv(v, v)
            for _ in range(b):
                t = t * y
            for _ in range(q):
                t = t * r
            out[a] = out[a] + t if a in out else t
        return out
    # common power of y of the denominator
    lb = min(b for a, b, q in den)
    ln = min(b for a, b, q in num)
    cd = coeffs({(a, b - lb, q): v for (a, b, q), v in den.items()})
    cn = coeffs({(a, b - ln, q): v for (a, b, q), v in num.items()})
    extra = ln - lb
    if extra < 0:
        return False
    scale = y1 ** extra
    sgn = 1
    if all(iv.hi <= 0 for iv in cd.values()):
        sgn = -1
    elif not all(iv.lo >= 0 for iv in cd.values()):
        # tolerate small coefficients of the wrong sign against a dominating one of higher power
        top = max(cd)
        if cd[top].lo > 0:
            sgn = 1
        elif cd[top].hi < 0:
            sgn = -1
        else:
            return False
    lowc = {a: (iv.lo if sgn == 1 else -iv.hi) for a, iv in cd.items()}
    z0 = Fraction(z0)
    # move everything of lower power onto higher powers: z^k <= z^(k+j) / z0^j
    if any(v < 0 for v in lowc.values()):
        top = max(lowc)
        acc = lowc[top]
        for a, v in lowc.items():
            if a != top:
                if z0 <= 0:
                    return False
                acc += min(v, 0) / z0 ** (top - a)
        lowc = {top: acc}
    if any(v < 0 for v in lowc.values()) or not any(v > 0 for v in lowc.values()):
        return False
    budget = {a: v * Fraction(tol) for a, v in lowc.items()}
    for a in sorted(cn):
        need = cn[a].mag() * scale
        for t in sorted(budget):
            if t < a or need <= 0:
                continue
            if t > a and z0 <= 0:
                return False
            f = z0 ** (t - a)
            use = min(need, budget[t] * f)
            need -= use
            budget[t] -= use / f if f else 0
        if need > 0:
            return False
    return True
