"""Polynomials over tensor atoms with index labels: the normal form of the analysis.

A monomial is a tuple of factors, a factor is (atom, i0, i1, ...) with integer index labels:
    0 <= i < 1000     free index: axis i of the tensor the monomial belongs to
    i >= 1000         dummy (summed) index; i // 1000 - 1 is its space
    i < 0             a named fixed index (orbital position or loop variable), never renamed
A polynomial is a dict {monomial: Fraction}; monomials are canonical (see canon).
"""
import time
from fractions import Fraction

# ---------------------------------------------------------------- index spaces

SPACE_IDS = {}
SPACE_NAMES = []


def space(name):
    if name not in SPACE_IDS:
        SPACE_IDS[name] = len(SPACE_NAMES)
        SPACE_NAMES.append(name)
    return SPACE_IDS[name]


ONE = space('1')          # the space of axes of length one


def const_space(n):
    return ONE if n == 1 else space('#%d' % n)


def space_of(i):
    return i // 1000 - 1


# ---------------------------------------------------------------- named indices

NAMED = {}
NAMED_INFO = {}


def named(name, sp=None):
    if name not in NAMED:
        k = -1 - len(NAMED)
        NAMED[name] = k
        NAMED_INFO[k] = (name, sp)
    return NAMED[name]


# ---------------------------------------------------------------- atoms

ATOM_IDS = {}
ATOMS = []


class Atom(object):
    __slots__ = ('name', 'rank', 'group', 'real', 'conj')

    def __init__(self, name, rank, group, real):
        self.name = name
        self.rank = rank
        self.group = group      # list of (perm, sign); identity first
        self.real = real
        self.conj = None


def close_group(rank, gens):
    ident = tuple(range(rank))
    group = {ident: 1}
    todo = [ident]
    while todo:
        p = todo.pop()
        for g, s in gens:
            q = tuple(p[k] for k in g)
            if q not in group:
                group[q] = group[p] * s
                todo.append(q)
            elif group[q] != group[p] * s:
                raise ValueError('contradictory symmetry')
    return [(ident, 1)] + sorted((p, s) for p, s in group.items() if p != ident)


def atom(name, rank=0, sym=(), real=False):
    if name in ATOM_IDS:
        a = ATOM_IDS[name]
        if ATOMS[a].rank != rank:
            raise ValueError('atom %s re-registered with another rank' % name)
        return a
    a = len(ATOMS)
    ATOM_IDS[name] = a
    ATOMS.append(Atom(name, rank, close_group(rank, sym), real))
    return a


SGN = atom('(-1)^', -1)        # parity of a sum of GF(2) variables (named indices)


def conj_atom(a):
    A = ATOMS[a]
    if A.real:
        return a
    if A.conj is None:
        name = A.name[:-1] if A.name.endswith('*') else A.name + '*'
        b = atom(name, A.rank, [(p, s) for p, s in A.group[1:]])
        A.conj = b
        ATOMS[b].conj = a
    return A.conj


ANTI4 = [((1, 0, 2, 3), -1), ((0, 1, 3, 2), -1)]
PAIR4 = [((1, 0, 3, 2), 1)]

# ---------------------------------------------------------------- canonical form

_memo = {}


def _relabel(factors):
    m = {}
    cnt = {}
    out = []
    for f in factors:
        t = [f[0]]
        for i in f[1:]:
            if i >= 1000:
                j = m.get(i)
                if j is None:
                    s = i // 1000
                    c = cnt.get(s, 0)
                    cnt[s] = c + 1
                    j = s * 1000 + c
                    m[i] = j
                t.append(j)
            else:
                t.append(i)
        out.append(tuple(t))
    return tuple(out)


class Exhausted(Exception):
    """an expression grew beyond the analysis budget"""


class Budget(object):
    """bounds on the work spent on one obligation (products formed) and on the whole run (seconds)"""
    LIMIT = 200000
    SECONDS = 600
    work = 0
    start = time.monotonic()

    @classmethod
    def reset(cls):
        cls.work = 0

    @classmethod
    def spend(cls, n):
        cls.work += n
        if cls.work > cls.LIMIT:
            raise Exhausted('an expression grows beyond the analysis budget')
        if time.monotonic() - cls.start > cls.SECONDS:
            raise Exhausted('analysis time exhausted')


BITS = set()             # atoms whose elements are zero or one


def canon(factors):
    """canonical representative: (sign, monomial), or (0, None) for an identically vanishing one"""
    factors = list(factors)
    sg = [f for f in factors if f[0] == SGN]
    if sg:
        acc = set()
        for f in sg:
            acc ^= set(f[1:])
        factors = [f for f in factors if f[0] != SGN]
        s, k = canon(factors)
        if s and acc:
            k = ((SGN,) + tuple(sorted(acc)),) + k
        return s, k
    factors.sort()
    if BITS and any(f[0] in BITS for f in factors):
        factors = [f for k, f in enumerate(factors) if not k or f != factors[k - 1] or f[0] not in BITS]
    pre = _relabel(factors)
    r = _memo.get(pre)
    if r is None:
        r = _canon(pre)
        _memo[pre] = r
    return r


def _canon(factors):
    n = len(factors)
    order = sorted(range(n), key=lambda k: factors[k][0])
    # states: (remaining frozenset, mapping dict as sorted tuple, sign)
    states = [(frozenset(range(n)), {}, {}, 1)]
    out = []
    pos = 0
    while pos < n:
        a = factors[order[pos]][0]
        group = ATOMS[a].group
        best = None
        nxt = []
        Budget.spend(len(states) * len(group))
        for rem, m, cnt, sg in states:
            for k in rem:
                f = factors[k]
                if f[0] != a:
                    continue
                for perm, ps in group:
                    t = [a]
                    m2 = None
                    c2 = None
                    for q in perm:
                        i = f[1 + q]
                        if i >= 1000:
                            j = (m2 or m).get(i)
                            if j is None:
                                if m2 is None:
                                    m2 = dict(m)
                                    c2 = dict(cnt)
                                s = i // 1000
                                c = c2.get(s, 0)
                                c2[s] = c + 1
                                j = s * 1000 + c
                                m2[i] = j
                            t.append(j)
                        else:
                            t.append(i)
                    t = tuple(t)
                    if best is None or t < best:
                        best = t
                        nxt = []
                        nxt.append((rem - {k}, m2 or m, c2 or cnt, sg * ps))
                    elif t == best:
                        nxt.append((rem - {k}, m2 or m, c2 or cnt, sg * ps))
        # merge equal states
        if len(nxt) > 1:
            table = {}
            for st in nxt:
                key = (st[0], tuple(sorted(st[1].items())))
                old = table.get(key)
                if old is None:
                    table[key] = st
                elif old[3] != st[3]:
                    return (0, None)
            nxt = list(table.values())
        states = nxt
        out.append(best)
        pos += 1
    signs = {st[3] for st in states}
    if len(signs) > 1:
        return (0, None)
    return (signs.pop(), tuple(out))


# ---------------------------------------------------------------- polynomials

def frac(x):
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    f = Fraction(x)
    g = f.limit_denominator(100000)
    if f != 0 and abs(float((g - f) / f)) < 4e-15:
        return g
    return f


def pconst(c):
    c = frac(c)
    return {(): c} if c else {}


def padd(p, q, c=1):
    r = dict(p)
    for k, v in q.items():
        w = r.get(k, 0) + v * c
        if w:
            r[k] = w
        else:
            r.pop(k, None)
    return r


def pscale(p, c):
    c = frac(c)
    if not c:
        return {}
    return {k: v * c for k, v in p.items()}


def padd_into(r, q, c=1):
    for k, v in q.items():
        w = r.get(k, 0) + v * c
        if w:
            r[k] = w
        else:
            r.pop(k, None)


def pmap(p, f):
    """rename indices of every monomial by f and re-canonicalise"""
    r = {}
    for k, v in p.items():
        s, m = canon([(x[0],) + tuple(f(i) for i in x[1:]) for x in k])
        if s:
            w = r.get(m, 0) + v * s
            if w:
                r[m] = w
            else:
                r.pop(m, None)
    return r


def pconj(p):
    r = {}
    for k, v in p.items():
        s, m = canon([(conj_atom(x[0]),) + x[1:] if x[0] != SGN else x for x in k])
        if s:
            w = r.get(m, 0) + v * s
            if w:
                r[m] = w
            else:
                r.pop(m, None)
    return r


def pprod(polys, maps):
    """product of polynomials; maps[n] renames the free indices of the n-th one"""
    acc = {(): Fraction(1)}
    first = True
    for n, (p, mp) in enumerate(zip(polys, maps)):
        off = 100 * n

        def f(i, off=off, mp=mp):
            if i >= 1000:
                return i + off
            if i >= 0:
                return mp[i]
            return i
        ren = [([(x[0],) + tuple(f(i) for i in x[1:]) for x in k], v) for k, v in p.items()]
        new = {}
        if first:
            for k, v in ren:
                k = tuple(k)
                new[k] = new.get(k, 0) + v
            first = False
        else:
            Budget.spend(len(acc) * len(ren))
            for k0, v0 in acc.items():
                for k1, v1 in ren:
                    k = k0 + tuple(k1)
                    new[k] = new.get(k, 0) + v0 * v1
        acc = new
        if not acc:
            return {}
    r = {}
    for k, v in acc.items():
        s, m = canon(k)
        if s:
            w = r.get(m, 0) + v * s
            if w:
                r[m] = w
            else:
                r.pop(m, None)
    return r


def pmul(p, q):
    """product of two polynomials over the same free indices (element-wise)"""
    ident = range(1000)
    return pprod([p, q], [ident, ident])


def psubst(p, rule):
    """Replace every factor by a polynomial: rule(factor) -> None (keep) or list of (coeff, [factors]).
    Indices occurring in the replacement must be those of the factor."""
    r = {}
    for k, v in p.items():
        terms = [(v, [])]
        for f in k:
            rep = rule(f)
            if rep is None:
                terms = [(c, fs + [f]) for c, fs in terms]
            else:
                terms = [(c * c2, fs + list(f2)) for c, fs in terms for c2, f2 in rep]
        for c, fs in terms:
            s, m = canon(fs)
            if s:
                w = r.get(m, 0) + c * s
                if w:
                    r[m] = w
                else:
                    r.pop(m, None)
    return r


def pclean(p, tol=Fraction(1, 10**11)):
    return {k: v for k, v in p.items() if abs(v) > tol}


def pequal(p, q):
    return not pclean(padd(p, q, -1))


# ---------------------------------------------------------------- printing

_LET = {}


def _letter(i, free_names=None):
    if i < 0:
        return NAMED_INFO[i][0]
    if i < 1000:
        return free_names[i] if free_names else '.%d' % i
    return '%s%d' % (SPACE_NAMES[i // 1000 - 1], i % 1000)


def show_mono(k, free_names=None):
    return ' '.join('%s%s' % (ATOMS[f[0]].name,
                              '(' + ','.join(_letter(i, free_names) for i in f[1:]) + ')' if len(f) > 1 else '')
                    for f in k) or '1'


def show(p, free_names=None, limit=None):
    items = sorted(p.items(), key=lambda kv: (len(kv[0]), kv[0]))
    out = []
    for k, v in items[:limit]:
        c = '%+d' % v if v.denominator == 1 else ('%+d/%d' % (v.numerator, v.denominator)
                                                 if v.denominator < 10**6 else '%+.17g' % float(v))
        out.append('%s %s' % (c, show_mono(k, free_names)))
    if limit is not None and len(items) > limit:
        out.append('... (%d terms)' % len(items))
    return '  '.join(out) or '0'
