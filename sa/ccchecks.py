"""Checks of the coupled-cluster equations, density matrices and energies (C01 - C13)."""
import re
from fractions import Fraction

from . import ccspec as S
from . import poly, tensor as T
from .ccspec import O, V, OA, OB, VA, VB, BLOCK4, BLOCK9, BLOCK16
from .framework import compare, shares_memory, Broken
from .poly import ANTI4, PAIR4, ATOMS, padd
from .tensor import Unknown
from .values import Arr, Obj, Top

SPIN = {'so': {'o': O, 'v': V}, 'a': {'o': OA, 'v': VA}, 'b': {'o': OB, 'v': VB}}
EQ = 'the returned polynomial in the input tensors equals the reference polynomial'
OWN = 'returned arrays share no memory with the arguments'


def arr(name, label, axes, sym=()):
    a = Arr(T.atom_tensor(name, axes, sym))
    a.origin = 'argument ' + label
    return a


def one_e(name, label, spin):
    d = SPIN[spin]
    o = Obj('blocks', {k: arr(name, '%s.%s' % (label, k), [d[c] for c in k]) for k in BLOCK4},
            origin='argument ' + label)
    return o


def two_e(name, label, spins, blocks, sym=()):
    """spins: four letters naming the spin of each axis"""
    at = {}
    for k in blocks:
        at[k] = arr(name, '%s.%s' % (label, k), [SPIN[s][c] for s, c in zip(spins, k)], sym)
    return Obj('blocks', at, origin='argument ' + label)


SO4 = ('so',) * 4
A4, B4, AB4 = 'aaaa', 'bbbb', 'abab'


class SO(object):
    """spin-orbital inputs"""
    def __init__(self):
        self.F = one_e('F', 'F', 'so')
        self.I = two_e('I', 'I', SO4, BLOCK9, ANTI4)
        self.T1 = arr('T1', 'T1', [V, O])
        self.T2 = arr('T2', 'T2', [V, V, O, O], ANTI4)
        self.L1 = arr('L1', 'L1', [O, V])
        self.L2 = arr('L2', 'L2', [O, O, V, V], ANTI4)


class UN(object):
    """unrestricted inputs"""
    def __init__(self):
        S.u_atoms()
        self.Fa = one_e('Fa', 'Fa', 'a')
        self.Fb = one_e('Fb', 'Fb', 'b')
        self.Ia = two_e('Iaa', 'Ia', A4, BLOCK9, ANTI4)
        self.Ib = two_e('Ibb', 'Ib', B4, BLOCK9, ANTI4)
        self.Iab = two_e('Iab', 'Iabab', AB4, BLOCK16)
        self.T1a = arr('T1a', 'T1a', [VA, OA])
        self.T1b = arr('T1b', 'T1b', [VB, OB])
        self.T2aa = arr('T2aa', 'T2aa', [VA, VA, OA, OA], ANTI4)
        self.T2ab = arr('T2ab', 'T2ab', [VA, VB, OA, OB])
        self.T2bb = arr('T2bb', 'T2bb', [VB, VB, OB, OB], ANTI4)
        self.L1a = arr('L1a', 'L1a', [OA, VA])
        self.L1b = arr('L1b', 'L1b', [OB, VB])
        self.L2aa = arr('L2aa', 'L2aa', [OA, OA, VA, VA], ANTI4)
        self.L2ab = arr('L2ab', 'L2ab', [OA, OB, VA, VB])
        self.L2bb = arr('L2bb', 'L2bb', [OB, OB, VB, VB], ANTI4)
        self.T1 = (self.T1a, self.T1b)
        self.T2 = (self.T2aa, self.T2ab, self.T2bb)
        self.L1 = (self.L1a, self.L1b)
        self.L2 = (self.L2aa, self.L2ab, self.L2bb)


class RE(object):
    """restricted inputs"""
    def __init__(self):
        S.r_atoms()
        self.F = one_e('rF', 'F', 'so')
        self.I = two_e('rI', 'I', SO4, BLOCK16, PAIR4)
        self.T1 = arr('rT1', 'T1', [V, O])
        self.T2 = arr('rT2', 'T2', [V, V, O, O], PAIR4)
        self.L1 = arr('rL1', 'L1', [O, V])
        self.L2 = arr('rL2', 'L2', [O, O, V, V], PAIR4)


def flat(v):
    if isinstance(v, (tuple, list)):
        out = []
        for x in v:
            out += flat(x)
        return out
    return [v]


class CC(object):
    """runs functions of cc_equations and compares their results"""
    def __init__(self, s):
        self.s = s
        self.I = s.interp()
        s.assumptions += [
            'array values are exact ring elements: rounding is not modelled; literal coefficients are compared to 1e-11',
            'input tensors have the permutational symmetries stated by the property and otherwise arbitrary (complex) '
            'values; array sizes are arbitrary',
            'numpy/pyscf.lib einsum, arithmetic, transpose and copy behave as documented']

    def check(self, fn, args, wants, kw=None, mod='cc_equations', alias=True, variant=''):
        """wants: list of (label, axes, poly), in the order of the flattened result; args: callable building fresh inputs"""
        s, I = self.s, self.I
        f = s.lookup(I, mod, fn)
        if f is None:
            return
        name = fn + variant
        rule = EQ

        def call():
            return I.call(f, list(args()), dict(kw or {}))

        def verify(res, oracle):
            vals = flat(res)
            if isinstance(res, Top):
                raise Unknown(res.why)
            if len(vals) != len(wants):
                return ['%s returns %d arrays instead of %d' % (fn, len(vals), len(wants))]
            out = []
            unknown = None
            for v, (label, axes, p) in zip(vals, wants):
                try:
                    for m in compare(s, I, v, axes, p() if callable(p) else p, label, 'abcdefgh'):
                        out.append((m, funcloc(I, f)))
                except Unknown as e:
                    unknown = e
            if unknown is not None and not out:
                raise unknown
            return out
        s.run(I, name, 'cqcpy/%s.py:%s' % (mod, fn), call, verify, rule, loc=funcloc(I, f), alias=alias)


def funcloc(I, f):
    n = getattr(f, 'node', None)
    if n is None:
        return None
    return (f.module.path, f.name, n.lineno)


# ---------------------------------------------------------------- C01 - C04: amplitudes

T1AX = (V, O)
T2AX = (V, V, O, O)


def c01(s):
    cc = CC(s)
    X = SO()
    sd = [('singles', T1AX, S.singles), ('doubles', T2AX, S.doubles)]
    dd = [('doubles', T2AX, lambda: S.without(S.doubles(), 'T1'))]
    for fn in ('ccsd_simple', 'ccsd_stanton'):
        cc.check(fn, lambda: (X.F, X.I, X.T1, X.T2), sd)
    for fn in ('ccd_simple', 'ccd_stanton'):
        cc.check(fn, lambda: (X.F, X.I, X.T2), dd)


def amps(k):
    return S.count(k, ('T1', 'T2'))


def has(k, name):
    return S.count(k, (name,)) > 0


def on_tensors(k, i, j):
    """free indices i and j sit on the same factor"""
    return any(i in f[1:] and j in f[1:] for f in k)


def eri_spaces(k):
    for f in k:
        if ATOMS[f[0]].name == 'I':
            out = []
            for i in f[1:]:
                sp = poly.space_of(i) if i >= 1000 else (V, V, O, O)[i]
                out.append('v' if sp == V else 'o')
            return ''.join(sorted(out[:2])) + ''.join(sorted(out[2:]))
    return ''


def is_ladder(k):
    """constant, pp/hh ladders, and the quadratic ladder of the CCD doubles equation"""
    if has(k, 'F'):
        return False
    n = amps(k)
    e = eri_spaces(k)
    if n == 0:
        return True
    if n == 1:
        return e in ('vvvv', 'oooo')
    # quadratic: both external particles on one amplitude, both external holes on the other
    return any(ATOMS[f[0]].name == 'T2' and 0 in f[1:] and 1 in f[1:] for f in k) and \
        any(ATOMS[f[0]].name == 'T2' and 2 in f[1:] and 3 in f[1:] for f in k)


def is_ring(k):
    """constant and ring terms in which each external particle-hole pair (a,i), (b,j) stays on one tensor"""
    if has(k, 'F'):
        return False
    n = amps(k)
    if n == 0:
        return True
    if n == 1 and eri_spaces(k) != 'ovov':
        return False
    return on_tensors(k, 0, 2) and on_tensors(k, 1, 3) and not on_tensors(k, 0, 1) and not on_tensors(k, 2, 3)


def c02(s):
    cc = CC(s)
    X = SO()
    ccd = S.without(S.doubles(), 'T1')
    lin = lambda p: S.keep(p, lambda k: amps(k) <= 1)
    cc.check('lccd_simple', lambda: (X.F, X.I, X.T2), [('doubles', T2AX, lin(ccd))])
    cc.check('lccsd_simple', lambda: (X.F, X.I, X.T1, X.T2),
             [('singles', T1AX, lin(S.singles())), ('doubles', T2AX, lin(S.doubles()))])
    cc.check('ccd_ladder_simple', lambda: (X.I, X.T2), [('doubles', T2AX, S.keep(ccd, is_ladder))])
    cc.check('ccd_ring_simple', lambda: (X.I, X.T2), [('doubles', T2AX, S.keep(ccd, is_ring))])


SPS = {'a': 0, 'b': 1}


def ublock(p, spins, block):
    """(axes, poly) of the spin block of a polynomial whose free indices have the spaces named by block"""
    sp = [SPS[c] for c in spins]
    axes = tuple({('o', 0): OA, ('o', 1): OB, ('v', 0): VA, ('v', 1): VB}[(c, x)] for c, x in zip(block, sp))
    return axes, S.spin_block(p, sp)


def uwants(items):
    """items: (label, poly, spins, block)"""
    out = []
    for label, p, spins, block in items:
        axes, q = ublock(p, spins, block)
        out.append(('%s %s' % (label, spins), axes, q))
    return out


def rwant(label, p, spins, block):
    return (label, tuple(S.SP[c] for c in block), S.closed_shell(S.spin_block(p, [SPS[c] for c in spins])))


def c03(s):
    cc = CC(s)
    X = UN()
    s1, d2 = S.singles(), S.doubles()
    cc.check('uccsd_stanton', lambda: (X.Fa, X.Fb, X.Ia, X.Ib, X.Iab, X.T1, X.T2),
             uwants([('singles', s1, 'aa', 'vo'), ('singles', s1, 'bb', 'vo'), ('doubles', d2, 'aaaa', 'vvoo'),
                     ('doubles', d2, 'abab', 'vvoo'), ('doubles', d2, 'bbbb', 'vvoo')]))


def c04(s):
    cc = CC(s)
    X = RE()
    cc.check('rccsd_stanton', lambda: (X.F, X.I, X.T1, X.T2),
             [rwant('singles', S.singles(), 'aa', 'vo'), rwant('doubles', S.doubles(), 'abab', 'vvoo')])


# ---------------------------------------------------------------- C05 - C07: Lambda

L1AX = (O, V)
L2AX = (O, O, V, V)


def c05(s):
    cc = CC(s)
    X = SO()
    L = S.lagrangian()
    g1, g2 = S.d_t1(L), S.d_t2(L)
    w = [('singles', L1AX, g1), ('doubles', L2AX, g2)]
    for fn in ('ccsd_lambda_simple', 'ccsd_lambda_opt', 'ccsd_lambda_stanton'):
        cc.check(fn, lambda: (X.F, X.I, X.L1, X.L2, X.T1, X.T2), w)
    cls = s.lookup(cc.I, 'cc_equations', 'lambda_int')
    if cls is not None:
        I = cc.I

        def make():
            o = I.call(cls, [X.F, X.I, X.T1, X.T2], {})
            return o

        def args():
            o = make()
            own(I, o, 'argument intermediates')
            return (X.F, X.I, X.L1, X.L2, X.T1, X.T2, o)
        cc.check('ccsd_lambda_opt_int', args, w)

        def twice():
            o = make()
            f = I.lookup_global('cqcpy.cc_equations', 'ccsd_lambda_opt_int')
            I.call(f, [X.F, X.I, X.L1, X.L2, X.T1, X.T2, o], {})
            I.effects = []
            return (X.F, X.I, X.L1, X.L2, X.T1, X.T2, o)
        cc.check('ccsd_lambda_opt_int', twice, w, variant=' (second use of the same intermediates)')
    Lc = S.lagrangian(ccd=True)
    cc.check('ccd_lambda_simple', lambda: (X.F, X.I, X.L2, X.T2), [('doubles', L2AX, S.d_t2(Lc))])


def own(I, o, label):
    """mark the arrays held by an object as inputs"""
    if isinstance(o, Obj):
        o.origin = label
        for k, v in o.attrs.items():
            if isinstance(v, Arr) and v.base is None and not v.origin:
                v.origin = '%s.%s' % (label, k)


def c06(s):
    cc = CC(s)
    X = UN()
    L = S.lagrangian()
    g1, g2 = S.d_t1(L), S.d_t2(L)
    cc.check('uccsd_lambda_opt', lambda: (X.Fa, X.Fb, X.Ia, X.Ib, X.Iab, X.L1, X.L2, X.T1, X.T2),
             uwants([('singles', g1, 'aa', 'ov'), ('singles', g1, 'bb', 'ov'), ('doubles', g2, 'aaaa', 'oovv'),
                     ('doubles', g2, 'abab', 'oovv'), ('doubles', g2, 'bbbb', 'oovv')]))


def c07(s):
    cc = CC(s)
    X = RE()
    L = S.lagrangian()
    cc.check('rccsd_lambda_opt', lambda: (X.F, X.I, X.L1, X.L2, X.T1, X.T2),
             [rwant('singles', S.d_t1(L), 'aa', 'ov'), rwant('doubles', S.d_t2(L), 'abab', 'oovv')])


# ---------------------------------------------------------------- C08 - C11: density matrices

def rdm1(name):
    """one-particle density block named by its index letters, Lambda-free part times tfac: free (q, p)"""
    blk = letters(name)                 # spaces of the density indices
    fb = blk[::-1]                      # Fock block multiplied with it
    p = S.d_fock(S.lambda_part(), fb)
    e = S.d_fock(S.energy(), fb)
    return blk, p, e


def rdm2(name):
    blk = letters(name)
    ib = blk[2:] + blk[:2]
    p = S.d_eri(S.lambda_part(), ib)
    e = S.d_eri(S.energy(), ib)
    return blk, p, e


def letters(name):
    return ''.join('v' if c in 'abcd' else 'o' for c in name)


def with_tfac(p, e):
    return padd(p, S.scale_by(e, 'tfac'))


TF = T.sym_scalar('tfac')


def c08(s):
    cc = CC(s)
    X = SO()
    U = UN()
    R = RE()
    for nm in ('ba', 'ji', 'ai'):
        blk, p, e = rdm1(nm)
        ax = tuple(S.SP[c] for c in blk)
        full = padd(p, e)
        for fn in ('ccsd_1rdm_' + nm, 'ccsd_1rdm_%s_opt' % nm):
            cc.check(fn, lambda: (X.T1, X.T2, X.L1, X.L2), [(nm, ax, full)])
            if nm == 'ai':
                cc.check(fn, lambda: (X.T1, X.T2, X.L1, X.L2), [(nm, ax, with_tfac(p, e))], kw={'tfac': TF},
                         variant='(tfac)')
        uargs = lambda: (U.T1a, U.T1b, U.T2aa, U.T2ab, U.T2bb, U.L1a, U.L1b, U.L2aa, U.L2ab, U.L2bb)
        cc.check('uccsd_1rdm_' + nm, uargs, uwants([(nm, full, 'aa', blk), (nm, full, 'bb', blk)]))
        rargs = lambda: (R.T1, R.T2, R.L1, R.L2)
        cc.check('rccsd_1rdm_' + nm, rargs, [rwant(nm, full, 'aa', blk)])
        if nm == 'ai':
            q = with_tfac(p, e)
            cc.check('uccsd_1rdm_ai', uargs, uwants([(nm, q, 'aa', blk), (nm, q, 'bb', blk)]), kw={'tfac': TF},
                     variant='(tfac)')
            cc.check('rccsd_1rdm_ai', rargs, [rwant(nm, q, 'aa', blk)], kw={'tfac': TF}, variant='(tfac)')


RDM2 = ('cdab', 'ciab', 'bcai', 'bjai', 'abij', 'jkai', 'kaij', 'klij')


def c09(s):
    cc = CC(s)
    X = SO()
    for nm in RDM2:
        blk, p, e = rdm2(nm)
        ax = tuple(S.SP[c] for c in blk)
        for fn in ('ccsd_2rdm_' + nm, 'ccsd_2rdm_%s_opt' % nm):
            args = lambda: (X.T1, X.T2, X.L1, X.L2)
            cc.check(fn, args, [(nm, ax, padd(p, e))])
            if nm == 'abij':
                cc.check(fn, args, [(nm, ax, with_tfac(p, e))], kw={'tfac': TF}, variant='(tfac)')


URDM2 = {'ciab': 'aaaa bbbb abab baba', 'jkai': 'aaaa bbbb abab baba', 'cdab': 'aaaa bbbb abab',
         'bjai': 'aaaa bbbb abab abba baab baba', 'klij': 'aaaa bbbb abab', 'bcai': 'aaaa bbbb abab baba',
         'kaij': 'aaaa bbbb abab baba', 'abij': 'aaaa bbbb abab'}


def c10(s):
    cc = CC(s)
    U = UN()
    args = lambda: (U.T1a, U.T1b, U.T2aa, U.T2ab, U.T2bb, U.L1a, U.L1b, U.L2aa, U.L2ab, U.L2bb)
    for nm in RDM2:
        blk, p, e = rdm2(nm)
        full = padd(p, e)
        spins = URDM2[nm].split()
        cc.check('uccsd_2rdm_' + nm, args, uwants([(nm, full, sp, blk) for sp in spins]))
        if nm == 'abij':
            q = with_tfac(p, e)
            cc.check('uccsd_2rdm_abij', args, uwants([(nm, q, sp, blk) for sp in spins]), kw={'tfac': TF},
                     variant='(tfac)')


def c11(s):
    cc = CC(s)
    R = RE()
    for nm in RDM2 + ('bjia',):
        blk, p, e = rdm2(nm)
        full = padd(p, e)
        cc.check('rccsd_2rdm_' + nm, lambda: (R.T1, R.T2, R.L1, R.L2), [rwant(nm, full, 'abab', blk)])


# ---------------------------------------------------------------- C12: energies

def c12(s):
    cc = CC(s)
    X = SO()
    U = UN()
    R = RE()
    e = S.energy()
    d = S.keep(e, lambda k: S.count(k, ('T2',)) == 1)
    s1 = S.keep(e, lambda k: S.count(k, ('F',)) == 1)
    s2 = S.keep(e, lambda k: S.count(k, ('T1',)) == 2)
    two = {k: 2 * v for k, v in s2.items()}
    mp2 = padd(d, s1)
    ck = lambda fn, args, want: cc.check(fn, args, [(fn, (), want)], mod='cc_energy', alias=False)
    I = X.I.attrs['oovv']
    F = X.F.attrs['ov']
    ck('cc_energy_d', lambda: (X.T2, I), d)
    ck('cc_energy_s1', lambda: (X.T1, F), s1)
    ck('cc_energy_s2', lambda: (X.T1, I), two)
    ck('cc_energy', lambda: (X.T1, X.T2, F, I), e)
    ck('mp2_energy', lambda: (X.T1, X.T2, F, I), mp2)
    # bilinear form
    poly.atom('S1', 2)
    sb = {}
    a = poly.ATOM_IDS['S1']
    for k, v in two.items():
        pos = [n for n, f in enumerate(k) if ATOMS[f[0]].name == 'T1']
        for n in pos:
            fs = [(a,) + f[1:] if m == n else f for m, f in enumerate(k)]
            sg, kk = poly.canon(fs)
            poly.padd_into(sb, {kk: v * sg * Fraction(1, 2)})
    ck('cc_energy_s2_a', lambda: (X.T1, arr('S1', 't12', [V, O]), I), sb)
    uargs = lambda: (U.T1, U.T2, U.Fa.attrs['ov'], U.Fb.attrs['ov'], U.Ia.attrs['oovv'], U.Ib.attrs['oovv'],
                     U.Iab.attrs['oovv'])
    ck('ucc_energy', uargs, S.spin_block(e, []))
    ck('ump2_energy', uargs, S.spin_block(mp2, []))
    ck('rcc_energy', lambda: (R.T1, R.T2, R.F.attrs['ov'], R.I.attrs['oovv']), S.closed_shell(S.spin_block(e, [])))


# ---------------------------------------------------------------- C13: scale factors

SOK = '''_S_S:T1,F,I,t1 _S_D:T1,F,I,t2 _S_SS:T1,F,I,t1 _S_SD:T1,F,I,t1,t2 _S_SSS:T1,F,I,t1 _D_S:T2,F,I,t1 _D_D:T2,F,I,t2
_D_D_ladder:T2,I,t2 _D_D_ring:T2,I,t2 _D_SS:T2,F,I,t1 _D_SD:T2,F,I,t1,t2 _D_DD:T2,F,I,t2 _D_DD_ladder:T2,I,t2
_D_DD_ring:T2,I,t2 _D_SSS:T2,F,I,t1 _D_SSD:T2,F,I,t1,t2 _D_SSSS:T2,F,I,t1 _Stanton:T1,T2,F,I,t1,t2
_Stanton_ccd:T2,F,I,t2 _LS_TS:L1,I,t1 _LS_LS:L1,F,I,l1 _LS_LSTS:L1,F,I,l1,t1 _LS_LSTD:L1,I,l1,t2 _LS_LSTSS:L1,I,l1,t1
_LS_LD:L1,F,I,l2 _LS_LDTS:L1,F,I,l2,t1 _LS_LDTD:L1,F,I,l2,t2 _LS_LDTSS:L1,F,I,l2,t1 _LS_LDTSD:L1,I,l2,t1,t2
_LS_LDTSSS:L1,I,l2,t1 _LD_LS:L2,F,I,l1 _LD_LSTS:L2,F,I,l1,t1 _LD_LD:L2,F,I,l2 _LD_LD_ladder:L2,I,l2
_LD_LDTS:L2,F,I,l2,t1 _LD_LDTD:L2,I,l2,t2 _LD_LDTD_ladder:L2,I,l2,t2 _LD_LDTSS:L2,F,I,l2,t1
_Lambda_Stanton:L1,L2,F,I,l1,l2,t1,t2 _Lambda_opt:L1,L2,F,I,l1,l2,t1,t2 _Lambda_opt_int:L1,L2,F,I,l1,l2,t1,t2,intor'''
REK = '_r_Stanton:T1,T2,F,I,t1,t2 _r_LS_TS:L1,I,t1 _rccsd_Lambda_opt:L1,L2,F,I,l1,l2,t1,t2'
UNK = '''_u_Stanton:T1a,T1b,T2aa,T2ab,T2bb,Fa,Fb,Ia,Ib,Iab,t1,t2 _u_LS_TS:L1a,L1b,Ia,Ib,Iab,t1a,t1b
_uccsd_Lambda_opt:L1a,L1b,L2aa,L2ab,L2bb,Fa,Fb,Ia,Ib,Iab,l1,l2,t1,t2'''
ACC = {'T1': 'vo', 'T2': 'vvoo', 'L1': 'ov', 'L2': 'oovv'}


def kernel_args(I, roles, fam, accs):
    X = {'so': SO, 'u': UN, 'r': RE}[fam]()
    out = []
    for r in roles:
        if r[:2] in ACC and r[0] in 'TL':
            blk = ACC[r[:2]]
            sp = r[2:]
            if fam == 'u':
                spins = sp if len(blk) == 4 else sp + sp
                if len(blk) == 4:
                    spins = sp + sp
                axes = [SPIN[x][c] for x, c in zip(spins, blk)]
            else:
                axes = [S.SP[c] for c in blk]
            t0 = T.atom_tensor('acc_' + r, axes)
            if T.Small.active:
                t0 = T.small(t0)
            a = Arr(t0)
            accs.append((r, a, t0, axes))
            out.append(a)
        elif r == 'intor':
            o = I.call(I.lookup_global('cqcpy.cc_equations', 'lambda_int'), [X.F, X.I, X.T1, X.T2], {})
            own(I, o, 'argument intermediates')
            out.append(o)
        elif r in ('F', 'I', 'Fa', 'Fb', 'Ia', 'Ib', 'Iab'):
            out.append(getattr(X, r))
        else:
            out.append(getattr(X, r.upper()[:2] + r[2:]))
    return out


def c13(s):
    cc = CC(s)
    I = cc.I
    s.rule('accumulated change with a symbolic factor = factor times the change with factor one, and the change does not '
           'depend on the previous contents')
    found = 0
    for fam, text in (('so', SOK), ('r', REK), ('u', UNK)):
        for item in text.split():
            fn, roles = item.split(':')
            roles = roles.split(',')
            try:
                f = I.lookup_global('cqcpy.cc_equations', fn)
            except KeyError:
                s.oblige(fn, 'undecided', 'no such function')
                continue
            found += 1
            why = changed_interface(f, roles)
            if why:
                s.oblige(fn, 'undecided', why)
                continue
            fac_one(s, I, f, fn, fam, roles)
    if found < 20:
        raise Broken('only %d accumulation kernels found' % found)


def changed_interface(f, roles):
    """the kernels are module-private: one whose parameter list is no longer the expected one is not judged"""
    a = getattr(getattr(f, 'node', None), 'args', None)
    if a is None or a.vararg or a.kwarg:
        return 'not a plain function'
    names = [x.arg for x in a.posonlyargs + a.args]
    if 'fac' not in names + [x.arg for x in a.kwonlyargs]:
        return 'has no parameter fac'
    if len([n for n in names if n != 'fac']) != len(roles) or names[len(roles):] not in ([], ['fac']):
        return 'parameter list is %s' % ', '.join(names)
    return None


def fac_one(s, I, f, fn, fam, roles):
    fac = T.sym_scalar('fac')

    def call():
        out = []
        for scale in (None, fac, 1.0):
            accs = []
            args = kernel_args(I, roles, fam, accs)
            kw = {} if scale is None else {'fac': scale}
            if I.call(f, args, kw) is not None:
                raise Unknown('%s returns a value' % fn)
            out.append([(r, T.add(I.to_tensor(a), t0, -1)) for r, a, t0, ax in accs])
        return out

    def verify(res, oracle):
        d0, d1, d2 = res
        msgs = []
        from .framework import compare_poly
        for (r, x), (_, y), (_, z) in zip(d0, d1, d2):
            for key in set(x.blocks) | set(y.blocks) | set(z.blocks):
                px, py, pz = (t.blocks.get(key, {}) for t in (x, y, z))
                if any(ATOMS[g[0]].name.startswith('acc_') for k in px for g in k):
                    msgs.append('%s: the change of %s depends on its previous contents' % (fn, r))
                msgs += compare_poly(s, py, S.scale_by(px, 'fac'),
                                     '%s: change of %s with factor fac (reference: fac * change with default factor)'
                                     % (fn, r), 'abcdefgh')
                msgs += compare_poly(s, pz, px, '%s: change of %s with factor 1 (reference: default factor)' % (fn, r),
                                     'abcdefgh')
        for origin, eloc, what in I.effects:
            m = ('%s: %s although only the accumulators may change (%s)' % (fn, what, origin), eloc)
            if m not in msgs:
                msgs.append(m)
        return msgs
    s.run(I, fn, 'cqcpy/cc_equations.py:%s' % fn, call, verify,
          'change with factor fac equals fac times the change with factor one', loc=funcloc(I, f))


# ---------------------------------------------------------------- C37: what each kernel adds

def order(p, **n):
    """terms with the given numbers of tensors"""
    return S.keep(p, lambda k: all(S.count(k, (name,)) == c for name, c in n.items()))


LETTERS = {'S': '1', 'D': '2'}


def kernel_terms():
    """kernel name -> {accumulator: polynomial}; the letters of a name count the amplitudes in its terms"""
    s1, d2 = S.singles(), S.doubles()
    ccd = S.without(d2, 'T1')
    L = S.lagrangian()
    g1, g2 = S.d_t1(L), S.d_t2(L)
    out = {}
    for item in SOK.split():
        fn, roles = item.split(':')
        m = re.match(r'_(S|D)_([SD]+)$', fn)
        if m:
            n1, n2 = m.group(2).count('S'), m.group(2).count('D')
            out[fn] = {'T' + LETTERS[m.group(1)]: order({'S': s1, 'D': d2}[m.group(1)], T1=n1, T2=n2)}
        m = re.match(r'_L(S|D)_(?:L([SD]))?(?:T([SD]+))?$', fn)
        if m:
            ts = m.group(3) or ''
            n = {'T1': ts.count('S'), 'T2': ts.count('D'), 'L1': int(m.group(2) == 'S'), 'L2': int(m.group(2) == 'D')}
            out[fn] = {'L' + LETTERS[m.group(1)]: order({'S': g1, 'D': g2}[m.group(1)], **n)}
    lad, ring = S.keep(ccd, is_ladder), S.keep(ccd, is_ring)
    gl = S.d_t2(S.contract_with(lad, 'L2', ANTI4, (2, 3, 0, 1), (V, V, O, O), Fraction(1, 4)))
    out['_D_D_ladder'] = {'T2': order(lad, T2=1)}
    out['_D_DD_ladder'] = {'T2': order(lad, T2=2)}
    out['_D_D_ring'] = {'T2': order(ring, T2=1)}
    out['_D_DD_ring'] = {'T2': order(ring, T2=2)}
    out['_LD_LD_ladder'] = {'L2': order(gl, T2=0)}
    out['_LD_LDTD_ladder'] = {'L2': order(gl, T2=1)}
    amp = lambda p: S.keep(p, lambda k: amps(k) > 0)
    lam = lambda p: S.keep(p, lambda k: S.count(k, ('L1', 'L2')) > 0)
    out['_Stanton'] = {'T1': amp(s1), 'T2': amp(d2)}
    out['_Stanton_ccd'] = {'T2': amp(ccd)}
    for fn in ('_Lambda_Stanton', '_Lambda_opt', '_Lambda_opt_int'):
        out[fn] = {'L1': lam(g1), 'L2': lam(g2)}
    rest = S.keep(g1, lambda k: S.count(k, ('L1', 'L2')) == 0 and amps(k) > 0)
    big = {'Stanton': ({'T1': amp(s1), 'T2': amp(d2)}, '_%s_Stanton'),
           'LS_TS': ({'L1': rest}, '_%s_LS_TS'),
           'Lambda': ({'L1': lam(g1), 'L2': lam(g2)}, '_%sccsd_Lambda_opt')}
    for d, pat in big.values():
        out[pat % 'u'] = u = {}
        out[pat % 'r'] = r = {}
        for k, p in d.items():
            for sp in (('a', 'b') if k[1] == '1' else ('aa', 'ab', 'bb')):
                u[k + sp] = ublock(p, sp + sp, ACC[k])[1]
            r[k] = S.closed_shell(S.spin_block(p, [0, 0] if k[1] == '1' else [0, 1, 0, 1]))
    return out


def c37(s):
    cc = CC(s)
    I = cc.I
    want = kernel_terms()
    for fam, text in (('so', SOK), ('r', REK), ('u', UNK)):
        for item in text.split():
            fn, roles = item.split(':')
            roles = roles.split(',')
            if fn not in want:
                raise Broken('no reference for ' + fn)
            try:
                f = I.lookup_global('cqcpy.cc_equations', fn)
            except KeyError:
                s.oblige(fn, 'undecided', 'no such function')
                continue
            why = changed_interface(f, roles)
            if why:
                s.oblige(fn, 'undecided', why)
                continue
            adds_one(s, I, f, fn, fam, roles, want[fn])


def adds_one(s, I, f, fn, fam, roles, want):
    def call():
        accs = []
        if I.call(f, kernel_args(I, roles, fam, accs), {}) is not None:
            raise Unknown('%s returns a value' % fn)
        return [(r, Arr(T.add(I.to_tensor(a), t0, -1))) for r, a, t0, ax in accs], [ax for r, a, t0, ax in accs]

    def verify(res, oracle):
        out = []
        for (r, a), ax in zip(*res):
            out += compare(s, I, a, ax, want[r], '%s: added to %s' % (fn, r), 'abcdefgh')
        return out
    s.run(I, fn, 'cqcpy/cc_equations.py:%s' % fn, call, verify,
          'the terms added equal the terms of the equations with the numbers of amplitudes the kernel is named for',
          loc=funcloc(I, f))
