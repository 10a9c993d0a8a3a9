"""Reference coupled-cluster equations derived from Wick's theorem.

Operators are products of normal-ordered groups; only full contractions between different groups survive:
   <.. i^+ .. j ..> -> delta_ij  (occupied, creation left of annihilation)
   <.. a .. b^+ ..> -> delta_ab  (virtual, annihilation left of creation)
with sign (-1)^(operators in between).  Connected: every cluster operator is contracted with H.
"""
from fractions import Fraction
from math import factorial
import itertools

from .poly import atom, canon, space, ANTI4, padd_into

O = space('o')
V = space('v')


def fock():
    return atom('F', 2)


def eri():
    return atom('I', 4, ANTI4)


def t1():
    return atom('T1', 2)


def t2():
    return atom('T2', 4, ANTI4)


def l1():
    return atom('L1', 2)


def l2():
    return atom('L2', 4, ANTI4)


class Idx(object):
    __slots__ = ('sp', 'free')

    def __init__(self, sp, free=None):
        self.sp = sp
        self.free = free


def contractions(ops, ok):
    """all full contractions of ops = [(group, dagger, Idx)]; yields (sign, [(i, j)])"""
    def rec(rest, sign, pairs):
        if not rest:
            yield sign, list(pairs)
            return
        i = rest[0]
        gi, di, xi = ops[i]
        for n in range(1, len(rest)):
            j = rest[n]
            gj, dj, xj = ops[j]
            if gi == gj or xi.sp != xj.sp or di == dj:
                continue
            if xi.sp == O and not di:      # left operator must be the creator for occupied
                continue
            if xi.sp == V and di:          # left operator must be the annihilator for virtual
                continue
            pairs.append((i, j))
            yield from rec(rest[1:n] + rest[n + 1:], sign * (-1 if (n - 1) % 2 else 1), pairs)
            pairs.pop()
    yield from rec(list(range(len(ops))), 1, [])


def expectation(proj, ham, nT1, nT2):
    """<proj| ham T1^n1 T2^n2 |0>_connected / (n1! n2!) as polynomial.
    proj: list of free Idx operators; ham: 'F' or 'I'"""
    out = {}
    pref = Fraction(1, factorial(nT1) * factorial(nT2))
    nh = 2 if ham == 'F' else 4
    for spaces in itertools.product((O, V), repeat=nh):
        ops = [(0, d, x) for d, x in proj]
        factors = []
        h = [Idx(s) for s in spaces]
        if ham == 'F':
            ops += [(1, True, h[0]), (1, False, h[1])]
            factors.append((fock(), h))
            c = Fraction(1)
        else:
            # 1/4 <pq||rs> p+ q+ s r
            ops += [(1, True, h[0]), (1, True, h[1]), (1, False, h[3]), (1, False, h[2])]
            factors.append((eri(), h))
            c = Fraction(1, 4)
        g = 2
        for n in range(nT1):
            a, i = Idx(V), Idx(O)
            ops += [(g, True, a), (g, False, i)]
            factors.append((t1(), [a, i]))
            g += 1
        for n in range(nT2):
            a, b, i, j = Idx(V), Idx(V), Idx(O), Idx(O)
            # 1/4 t(abij) a+ b+ j i
            ops += [(g, True, a), (g, True, b), (g, False, j), (g, False, i)]
            factors.append((t2(), [a, b, i, j]))
            c *= Fraction(1, 4)
            g += 1
        # quick count check
        cnt = {}
        for gg, d, x in ops:
            cnt[(x.sp, d)] = cnt.get((x.sp, d), 0) + 1
        if cnt.get((O, True), 0) != cnt.get((O, False), 0) or cnt.get((V, True), 0) != cnt.get((V, False), 0):
            continue
        for sign, pairs in contractions(ops, None):
            linked = {ops[j][0] for i, j in pairs if ops[i][0] == 1} | {ops[i][0] for i, j in pairs if ops[j][0] == 1}
            if not all(k in linked for k in range(2, g)):
                continue
            lab = {}
            cnt = {}
            for i, j in pairs:
                x, y = ops[i][2], ops[j][2]
                if x.free is not None and y.free is not None:
                    raise ValueError('free-free contraction')
                if x.free is not None:
                    k = x.free
                elif y.free is not None:
                    k = y.free
                else:
                    n = cnt.get(x.sp, 0)
                    cnt[x.sp] = n + 1
                    k = (x.sp + 1) * 1000 + n
                lab[id(x)] = k
                lab[id(y)] = k
            s, m = canon([(a,) + tuple(lab[id(x)] for x in xs) for a, xs in factors])
            if s:
                w = out.get(m, 0) + pref * c * sign * s
                if w:
                    out[m] = w
                else:
                    out.pop(m, None)
    return out


_cache = {}


def energy():
    return _sum('E', [])


def singles():
    # <0| i+ a  (free: a=0, i=1)
    return _sum('S', [(True, Idx(O, 1)), (False, Idx(V, 0))])


def doubles():
    # <0| i+ j+ b a  (free: a=0, b=1, i=2, j=3)
    return _sum('D', [(True, Idx(O, 2)), (True, Idx(O, 3)), (False, Idx(V, 1)), (False, Idx(V, 0))])


def _sum(name, proj):
    if name not in _cache:
        out = {}
        for ham in 'FI':
            for n1 in range(5):
                for n2 in range(3):
                    if n1 + n2 > (2 if ham == 'F' else 4):
                        continue
                    # excitation rank balance: H changes rank by -2..2
                    rank = n1 + 2 * n2 - len(proj) // 2
                    if not (-2 <= rank <= 2):
                        continue
                    padd_into(out, expectation(proj, ham, n1, n2))
        _cache[name] = out
    return dict(_cache[name])
