"""Reference polynomials of coupled-cluster theory: Lagrangian, derivatives, spin blocks, closed-shell reduction."""
from fractions import Fraction
import functools

from . import wick, poly
from .poly import atom, canon, space, space_of, ANTI4, PAIR4, padd_into, padd, pprod, pmap, ATOMS

O, V = wick.O, wick.V
OA, OB, VA, VB = space('oa'), space('ob'), space('va'), space('vb')
BLOCK9 = ['vvvv', 'vvvo', 'vovv', 'vvoo', 'vovo', 'oovv', 'vooo', 'ooov', 'oooo']
BLOCK16 = [a + b + c + d for a in 'ov' for b in 'ov' for c in 'ov' for d in 'ov']
BLOCK4 = ['oo', 'ov', 'vo', 'vv']


def dummy(sp, n):
    return (sp + 1) * 1000 + n


def contract_with(p, name, sym, idx, spaces, coeff):
    """coeff * sum over free indices of p * atom(idx[...]); free index k of p becomes dummy of spaces[k]"""
    a = atom(name, len(idx), sym)
    cnt = {}
    m = {}
    for k, s in enumerate(spaces):
        c = cnt.get(s, 90)
        cnt[s] = c + 1
        m[k] = dummy(s, c)
    out = {}
    for mono, c in p.items():
        fs = [(f[0],) + tuple(m[i] if 0 <= i < 1000 else i for i in f[1:]) for f in mono]
        fs.append((a,) + tuple(m[k] for k in idx))
        s, k = canon(fs)
        if s:
            padd_into(out, {k: c * s * coeff})
    return out


@functools.lru_cache(None)
def _energy():
    return wick.energy()


@functools.lru_cache(None)
def _singles():
    return wick.singles()


@functools.lru_cache(None)
def _doubles():
    return wick.doubles()


def energy():
    return dict(_energy())


def singles():
    return dict(_singles())


def doubles():
    return dict(_doubles())


def count(mono, names):
    return sum(1 for f in mono if ATOMS[f[0]].name in names)


def keep(p, cond):
    return {k: v for k, v in p.items() if cond(k)}


def without(p, name):
    return keep(p, lambda k: count(k, (name,)) == 0)


@functools.lru_cache(None)
def _lambda_part(ccd=False):
    s, d = singles(), doubles()
    if ccd:
        d = without(d, 'T1')
    L = {}
    if not ccd:
        padd_into(L, contract_with(s, 'L1', (), (1, 0), (V, O), Fraction(1)))
    padd_into(L, contract_with(d, 'L2', ANTI4, (2, 3, 0, 1), (V, V, O, O), Fraction(1, 4)))
    return L


def lagrangian(ccd=False):
    e = energy()
    if ccd:
        e = without(e, 'T1')
    return padd(e, _lambda_part(ccd))


def lambda_part(ccd=False):
    return dict(_lambda_part(ccd))


def derivative(p, name, spaces, out):
    """Derivative of the scalar polynomial p with respect to atom name with index spaces `spaces`, summed over the
    equivalent index orders of the atom (so that n!-fold counted independent elements get weight one);
    index k of the atom becomes free index out[k]."""
    a = poly.ATOM_IDS[name]
    group = ATOMS[a].group
    r = {}
    for mono, c in p.items():
        for n, f in enumerate(mono):
            if f[0] != a:
                continue
            rest = mono[:n] + mono[n + 1:]
            for perm, sg in group:
                idx = [f[1 + q] for q in perm]
                if [space_of(i) for i in idx] != list(spaces):
                    continue
                m = {i: out[k] for k, i in enumerate(idx)}
                s, k2 = canon([(x[0],) + tuple(m.get(i, i) for i in x[1:]) for x in rest])
                if s:
                    padd_into(r, {k2: c * s * sg})
    return r


SP = {'o': O, 'v': V}


def d_t1(L):
    """free (i, a)"""
    return derivative(L, 'T1', (V, O), (1, 0))


def d_t2(L):
    """free (i, j, a, b)"""
    return derivative(L, 'T2', (V, V, O, O), (2, 3, 0, 1))


def d_fock(L, block):
    """free index order reversed: density[q, p] for Fock element [p, q]; block names the spaces of (p, q)"""
    return derivative(L, 'F', [SP[c] for c in block], (1, 0))


def d_eri(L, block):
    """density [r, s, p, q] for integral <pq||rs>; block names the spaces of (p, q, r, s)"""
    return derivative(L, 'I', [SP[c] for c in block], (2, 3, 0, 1))


# ---------------------------------------------------------------- spin blocking

PAIRED = {'F': ('Fa', 'Fb'), 'T1': ('T1a', 'T1b'), 'L1': ('L1a', 'L1b')}
QUAD = {'I': ('Iaa', 'Iab', 'Ibb'), 'T2': ('T2aa', 'T2ab', 'T2bb'), 'L2': ('L2aa', 'L2ab', 'L2bb')}


def u_atoms():
    for x in ('Fa', 'Fb', 'T1a', 'T1b', 'L1a', 'L1b'):
        atom(x, 2)
    for x in ('Iaa', 'Ibb', 'T2aa', 'T2bb', 'L2aa', 'L2bb'):
        atom(x, 4, ANTI4)
    for x in ('Iab', 'T2ab', 'L2ab'):
        atom(x, 4)


def spin_factor(name, idx, sp):
    """spin-blocked factor: (sign, atom, indices) or None when the block vanishes"""
    if name in PAIRED:
        if sp[0] != sp[1]:
            return None
        return 1, PAIRED[name][sp[0]], idx
    q = QUAD[name]
    if sp[0] + sp[1] != sp[2] + sp[3]:
        return None
    if sp[0] == sp[1]:
        return 1, q[0] if sp[0] == 0 else q[2], idx
    p, r, s, t = idx
    sign = 1
    if sp[0] == 1:
        p, r = r, p
        sign = -sign
    if sp[2] == 1:
        s, t = t, s
        sign = -sign
    return sign, q[1], (p, r, s, t)


def spin_block(p, free_spins):
    """substitute spin-orbital atoms by spin-blocked ones; free index k has spin free_spins[k] (0 alpha, 1 beta)"""
    u_atoms()
    out = {}
    for mono, c in p.items():
        factors = [f for f in mono if ATOMS[f[0]].name in PAIRED or ATOMS[f[0]].name in QUAD]
        other = [f for f in mono if f not in factors]

        def rec(n, asg, sign, fs):
            if n == len(factors):
                def ren(i):
                    if i >= 1000:
                        s = space_of(i)
                        new = {O: (OA, OB), V: (VA, VB)}[s][asg[i]]
                        return dummy(new, i % 1000)
                    return i
                s, k = canon([(atom_id,) + tuple(ren(i) for i in idx) for atom_id, idx in fs] + other)
                if s:
                    padd_into(out, {k: c * s * sign})
                return
            f = factors[n]
            name = ATOMS[f[0]].name
            idx = f[1:]
            unset = []
            for i in idx:
                if i >= 1000 and i not in asg and i not in unset:
                    unset.append(i)
            for bits in range(1 << len(unset)):
                a2 = dict(asg)
                for k, i in enumerate(unset):
                    a2[i] = (bits >> k) & 1
                sp = [a2[i] if i >= 1000 else free_spins[i] for i in idx]
                r = spin_factor(name, idx, sp)
                if r is not None:
                    rec(n + 1, a2, sign * r[0], fs + [(poly.ATOM_IDS[r[1]], r[2])])
        rec(0, {}, 1, [])
    return out


# ---------------------------------------------------------------- closed shell

def r_atoms():
    for x in ('rF', 'rT1', 'rL1'):
        atom(x, 2)
    for x in ('rI', 'rT2', 'rL2'):
        atom(x, 4, PAIR4)


def closed_shell(p):
    """identical alpha and beta quantities: mixed tensors are the spatial ones, same-spin ones their antisymmetrisation"""
    r_atoms()
    one = {'Fa': 'rF', 'Fb': 'rF', 'T1a': 'rT1', 'T1b': 'rT1', 'L1a': 'rL1', 'L1b': 'rL1'}
    mixed = {'Iab': 'rI', 'T2ab': 'rT2', 'L2ab': 'rL2'}
    same = {'Iaa': 'rI', 'Ibb': 'rI', 'T2aa': 'rT2', 'T2bb': 'rT2', 'L2aa': 'rL2', 'L2bb': 'rL2'}

    # alpha and beta dummies become one space: keep them distinct while renaming
    def ren(i):
        if i >= 1000:
            s = space_of(i)
            new = {OA: O, OB: O, VA: V, VB: V}.get(s)
            if new is not None:
                return dummy(new, i % 1000 + (0 if s in (OA, VA) else 400))
        return i
    out = {}
    for mono, c in p.items():
        terms = [(c, [])]
        for f in mono:
            name = ATOMS[f[0]].name
            idx = tuple(ren(i) for i in f[1:])
            if name in one:
                rep = [(1, (poly.ATOM_IDS[one[name]],) + idx)]
            elif name in mixed:
                rep = [(1, (poly.ATOM_IDS[mixed[name]],) + idx)]
            elif name in same:
                a = poly.ATOM_IDS[same[name]]
                rep = [(1, (a,) + idx), (-1, (a, idx[0], idx[1], idx[3], idx[2]))]
            else:
                rep = [(1, (f[0],) + idx)]
            terms = [(x * y, fs + [g]) for x, fs in terms for y, g in rep]
        for x, fs in terms:
            s, k = canon(fs)
            if s:
                padd_into(out, {k: x * s})
    return out


def scale_by(p, name):
    """multiply every monomial by the scalar atom name"""
    a = atom(name, 0, real=True)
    out = {}
    for k, v in p.items():
        s, m = canon(list(k) + [(a,)])
        padd_into(out, {m: v * s})
    return out
