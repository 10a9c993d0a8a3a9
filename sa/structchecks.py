"""Checks of spin assembly, block containers, denominators and random generators (C15 - C19, parts of C34)."""
import itertools
from fractions import Fraction

from . import poly, tensor as T
from .ccchecks import funcloc, flat
from .ccspec import O, V, OA, OB, VA, VB, BLOCK4, BLOCK9, BLOCK16
from .framework import compare_tensor, compare_poly, shares_memory
from .poly import ANTI4, PAIR4, ATOMS, space
from .tensor import Dim, Tensor, Unknown, axis_name
from .values import Arr, Obj, Top

ASSUME = ['array values are exact ring elements: rounding is not modelled',
          'array sizes are arbitrary; numpy indexing, assignment, transposition and arithmetic behave as documented']

SA = {'a': {'o': OA, 'v': VA}, 'b': {'o': OB, 'v': VB}}
DIMS = {'noa': Dim.sp(OA), 'nob': Dim.sp(OB), 'nva': Dim.sp(VA), 'nvb': Dim.sp(VB)}
SPINAX = {'o': (OA, OB), 'v': (VA, VB)}


COMPLEX = None                  # which spin blocks are complex when complex arguments are asked for (None: all)


def mk(name, axes, label=None, sym=(), kind='f'):
    if kind == 'c' and COMPLEX is not None:
        spin = ''.join(sorted(set(name.split('_')[-1].strip('x')) & set('ab')))
        if spin != COMPLEX:
            kind = 'f'
    nm = name if kind == 'c' else name + '~'
    a = Arr(T.atom_tensor(nm, axes, sym, kind=kind, real=(kind != 'c')))
    a.origin = 'argument ' + (label or name)
    return a


def fixed(t, perm):
    return T.transpose(t, perm)


class Runner(object):
    def __init__(self, s):
        self.s = s
        self.I = s.interp()
        for a in ASSUME:
            if a not in s.assumptions:
                s.assumptions.append(a)

    def run(self, mod, fn, args, verify, rule, variant='', kw=None, alias=False, cons=None, pure=True,
            strict=False):
        s, I = self.s, self.I
        f = s.lookup(I, mod, fn)
        if f is None:
            return
        loc = funcloc(I, f)
        if loc is None and hasattr(f, 'attrs'):
            init = f.attrs.get('__init__')
            loc = funcloc(I, init) if init is not None else None

        def call():
            return I.call(f, list(args()), dict(kw() if callable(kw) else kw or {}))

        def ver(res, oracle):
            if isinstance(res, Top):
                raise Unknown(res.why)
            return [(m, loc) for m in verify(res)]
        s.run(I, fn + variant, 'cqcpy/%s.py:%s' % (mod, fn), call, ver, rule, loc=loc, pure=pure, alias=alias,
              strict_raise=strict)

    def tensor(self, got, want, label, kind=True):
        return compare_tensor(self.s, self.I, got, want, label, 'pqrstuvw', kind)

    def block(self, obj, name):
        if not isinstance(obj, Obj):
            raise Unknown('result is not a block container')
        return self.I.getattr(obj, name)


def assemble(parts, blk, kind):
    """spin-orbital tensor from {(spin indices): Tensor}; missing blocks are zero"""
    axes = tuple(SPINAX[c] for c in blk)
    blocks = {}
    for key, t in parts.items():
        blocks[key] = t.blocks.get((0,) * t.rank, {})
    return Tensor(axes, {k: p for k, p in blocks.items() if p}, kind)


def atoms1(tag, blk, kind):
    return {sp: mk(tag + sp, [SA[sp][c] for c in blk], tag + sp + '.' + blk, kind=kind) for sp in 'ab'}


AS = 'every spin block of the assembled tensor is the stated input block (sign, index order), all others are zero'


def spin4(aa, bb, ab, blk):
    """parts of an antisymmetric spin-orbital tensor for block blk; aa, bb, ab: block name -> Tensor"""
    sw12 = blk[1] + blk[0] + blk[2] + blk[3]
    sw34 = blk[0] + blk[1] + blk[3] + blk[2]
    sw = blk[1] + blk[0] + blk[3] + blk[2]
    return {(0, 0, 0, 0): aa(blk), (1, 1, 1, 1): bb(blk), (0, 1, 0, 1): ab(blk),
            (1, 0, 1, 0): fixed(ab(sw), (1, 0, 3, 2)), (0, 1, 1, 0): T.neg(fixed(ab(sw34), (0, 1, 3, 2))),
            (1, 0, 0, 1): T.neg(fixed(ab(sw12), (1, 0, 2, 3)))}


def container4(tag, spins, blocks, kind, sym=()):
    at = {b: mk(tag, [SA[s][c] for s, c in zip(spins, b)], '%s.%s' % (tag, b), sym, kind) for b in blocks}
    return Obj('blocks', at, origin='argument ' + tag)


def c15(s, kinds='f', rule=AS):
    R = Runner(s)
    D = DIMS
    sizes = lambda: (D['noa'], D['nva'], D['nob'], D['nvb'])
    for kind in kinds:
        tagv = '' if kinds == 'f' else ' (complex)' if COMPLEX is None else ' (complex %s block)' % COMPLEX
        # Fock matrix
        Fa = Obj('blocks', {b: mk('Fa' + 'x', [SA['a'][c] for c in b], 'Faa.' + b, kind=kind) for b in BLOCK4},
                 origin='argument Faa')
        Fb = Obj('blocks', {b: mk('Fb' + 'x', [SA['b'][c] for c in b], 'Fbb.' + b, kind=kind) for b in BLOCK4},
                 origin='argument Fbb')

        def vF(res):
            out = []
            for b in BLOCK4:
                want = assemble({(0, 0): Fa.attrs[b].read(), (1, 1): Fb.attrs[b].read()}, b, kind)
                out += R.tensor(R.block(res, b), want, 'F.' + b)
            return out
        if COMPLEX != 'ab':
            R.run('spin_utils', 'F_to_spin', lambda: (Fa, Fb) + sizes(), vF, rule, tagv, alias=True)
        # singles
        ta, tb = mk('Tax', [VA, OA], 'Ta', kind=kind), mk('Tbx', [VB, OB], 'Tb', kind=kind)
        want1 = assemble({(0, 0): ta.read(), (1, 1): tb.read()}, 'vo', kind)
        if COMPLEX != 'ab':
            R.run('spin_utils', 'T1_to_spin', lambda: (ta, tb) + sizes(), lambda r: R.tensor(r, want1, 'T1'), rule, tagv,
                  alias=True)
        # doubles and denominators
        for fn, sign in (('T2_to_spin', -1), ('D2_to_spin', 1)):
            aa = mk('Taax', [VA, VA, OA, OA], 'Taa', kind=kind)
            bb = mk('Tbbx', [VB, VB, OB, OB], 'Tbb', kind=kind)
            ab = mk('Tabx', [VA, VB, OA, OB], 'Tab', kind=kind)
            parts = spin4(lambda b: aa.read(), lambda b: bb.read(), lambda b: ab.read(), 'vvoo')
            if sign == 1:
                for k in ((0, 1, 1, 0), (1, 0, 0, 1)):
                    parts[k] = T.neg(parts[k])
            want2 = assemble(parts, 'vvoo', kind)
            R.run('spin_utils', fn, lambda: (aa, ab, bb) + sizes(), lambda r: R.tensor(r, want2, fn), rule, tagv,
                  alias=True)
        # two-electron containers
        for fn, anti in (('int_to_spin', True), ('int_to_spin2', False)):
            Ia = container4('Iaax', 'aaaa', BLOCK16 if anti else BLOCK9, kind)
            Ib = container4('Ibbx', 'bbbb', BLOCK16 if anti else BLOCK9, kind)
            Iab = container4('Iabx', 'abab', BLOCK16, kind)

            def same(c):
                def f(b):
                    t = c.attrs[b].read()
                    if anti:
                        t = T.add(t, fixed(c.attrs[b[0] + b[1] + b[3] + b[2]].read(), (0, 1, 3, 2)), -1)
                    return t
                return f

            def vI(res):
                out = []
                for b in BLOCK9:
                    want = assemble(spin4(same(Ia), same(Ib), lambda x: Iab.attrs[x].read(), b), b, kind)
                    out += R.tensor(R.block(res, b), want, '%s block %s' % (fn, b))
                return out
            R.run('spin_utils', fn, lambda: (Ia, Ib, Iab) + sizes(), vI, rule, tagv, alias=True)
        # generic block
        sa = [space('a%d' % k) for k in range(1, 5)]
        sb = [space('b%d' % k) for k in range(1, 5)]
        names = ['aaaa', 'bbbb', 'abab', 'baba', 'abba', 'baab']
        arrs = [mk('blk_' + n, [sa[k] if c == 'a' else sb[k] for k, c in enumerate(n)], n, kind=kind) for n in names]

        def vB(res):
            axes = tuple((sa[k], sb[k]) for k in range(4))
            blocks = {tuple(0 if c == 'a' else 1 for c in n): a.read().blocks[(0,) * 4] for n, a in zip(names, arrs)}
            return R.tensor(res, Tensor(axes, blocks, kind), 'assembled block')
        R.run('spin_utils', 'int_to_spin_block',
              lambda: tuple(arrs) + tuple(Dim.sp(x) for x in sa) + tuple(Dim.sp(x) for x in sb), vB, rule, tagv, alias=True)


RT = 'extraction from the assembled tensor returns the original blocks'


def c16(s, kinds='f'):
    R = Runner(s)
    I = R.I
    D = DIMS
    sizes = lambda: (D['noa'], D['nva'], D['nob'], D['nvb'])

    def given(t, label):
        a = Arr(t)
        a.origin = 'argument ' + label
        return a
    for kind in kinds:
        tagv = '' if kinds == 'f' else ' (complex)'
        Fx = {sp: {b: mk('F' + sp + 'x', [SA[sp][c] for c in b], kind=kind).read() for b in BLOCK4} for sp in 'ab'}
        F = Obj('blocks', {b: given(assemble({(0, 0): Fx['a'][b], (1, 1): Fx['b'][b]}, b, kind), 'F.' + b)
                           for b in BLOCK4}, origin='argument F')

        def vF(res):
            fa, fb = two(res, 2)
            out = []
            for sp, o in (('a', fa), ('b', fb)):
                for b in BLOCK4:
                    out += R.tensor(R.block(o, b), Fx[sp][b], 'F%s.%s' % (sp, b))
            return out
        R.run('spin_utils', 'F_to_spatial', lambda: (F,) + sizes(), vF, RT, tagv)
        t1 = {sp: mk('T' + sp + 'x', [SA[sp]['v'], SA[sp]['o']], kind=kind).read() for sp in 'ab'}
        T1 = given(assemble({(0, 0): t1['a'], (1, 1): t1['b']}, 'vo', kind), 'T')

        def vT1(res):
            a, b = two(res, 2)
            return R.tensor(a, t1['a'], 'Ta') + R.tensor(b, t1['b'], 'Tb')
        R.run('spin_utils', 'T1_to_spatial', lambda: (T1,) + sizes(), vT1, RT, tagv)
        aa = mk('Taax', [VA, VA, OA, OA], kind=kind).read()
        bb = mk('Tbbx', [VB, VB, OB, OB], kind=kind).read()
        ab = mk('Tabx', [VA, VB, OA, OB], kind=kind).read()
        T2 = given(assemble(spin4(lambda b: aa, lambda b: bb, lambda b: ab, 'vvoo'), 'vvoo', kind), 'T')

        def vT2(res):
            x, y, z = two(res, 3)
            return R.tensor(x, aa, 'Taa') + R.tensor(y, ab, 'Tab') + R.tensor(z, bb, 'Tbb')
        R.run('spin_utils', 'T2_to_spatial', lambda: (T2,) + sizes(), vT2, RT, tagv)
        Ia = container4('Iaax', 'aaaa', BLOCK9, kind)
        Ib = container4('Ibbx', 'bbbb', BLOCK9, kind)
        Iab = container4('Iabx', 'abab', BLOCK16, kind)
        rd = lambda c: (lambda b: c.attrs[b].read())
        II = Obj('blocks', {b: given(assemble(spin4(rd(Ia), rd(Ib), rd(Iab), b), b, kind), 'I.' + b) for b in BLOCK9},
                 origin='argument I')

        def vI(res):
            x, y, z = two(res, 3)
            out = []
            for b in BLOCK9:
                out += R.tensor(R.block(x, b), rd(Ia)(b), 'Ia.' + b)
                out += R.tensor(R.block(y, b), rd(Ib)(b), 'Ib.' + b)
            for b in BLOCK16:
                out += R.tensor(R.block(z, b), rd(Iab)(b), 'Iabab.' + b)
            return out
        R.run('spin_utils', 'int_to_spatial', lambda: (II, D['noa'], D['nob'], D['nva'], D['nvb']), vI, RT, tagv)
        # compositions of the two routines
        pairs = [('T1_to_spin', 'T1_to_spatial', lambda: (given(t1['a'], 'Ta'), given(t1['b'], 'Tb')), vT1),
                 ('T2_to_spin', 'T2_to_spatial', lambda: (given(aa, 'Taa'), given(ab, 'Tab'), given(bb, 'Tbb')), vT2),
                 ('F_to_spin', 'F_to_spatial', lambda: tuple(
                     Obj('blocks', {b: given(Fx[sp][b], b) for b in BLOCK4}) for sp in 'ab'), vF),
                 ('int_to_spin2', 'int_to_spatial', lambda: (Ia, Ib, Iab), vI)]
        for to, back, args, ver in pairs:
            f = s.lookup(I, 'spin_utils', to)
            if f is None:
                continue

            def comp(f=f, args=args, back=back):
                x = I.call(f, list(args()) + list(sizes()), {})
                if back == 'int_to_spatial':
                    return (x, D['noa'], D['nob'], D['nva'], D['nvb'])
                return (x,) + sizes()
            R.run('spin_utils', back, comp, ver, RT, ' after %s%s' % (to, tagv))


def two(res, n):
    if not isinstance(res, tuple) or len(res) != n:
        raise Unknown('result is not a tuple of %d' % n)
    return res


# ---------------------------------------------------------------- C17

def c17(s):
    R = Runner(s)
    I = R.I
    rule = 'block attribute = slice of the full tensor named by its letters'
    so = [space('o%d' % k) for k in range(1, 5)]
    sv = [space('v%d' % k) for k in range(1, 5)]
    axes = [(so[k], sv[k]) for k in range(4)]
    atom4 = T.atom_tensor('Itot', axes)

    def want(b):
        ax = [(so[k] if c == 'o' else sv[k],) for k, c in enumerate(b)]
        return T.atom_tensor('Itot', ax)

    def tot():
        a = Arr(atom4)
        a.origin = 'argument Itot'
        d = []
        for k in range(4):
            d += [Dim.sp(so[k]), Dim.sp(sv[k])]
        return (a,) + tuple(d)
    for fn, blocks in (('make_two_e_blocks', BLOCK9), ('make_two_e_blocks_full', BLOCK16)):
        def ver(res, blocks=blocks):
            out = []
            for b in BLOCK16:
                if b in blocks:
                    v = R.block(res, b)
                    if v is None:
                        out.append('block %s is absent' % b)
                    else:
                        out += R.tensor(v, want(b), 'block ' + b)
                elif isinstance(res, Obj) and res.attrs.get(b) is not None:
                    # an additional block must be the right slice
                    out += R.tensor(res.attrs[b], want(b), 'block ' + b)
            return out
        R.run('ov_blocks', fn, tot, ver, rule)
    rule2 = 'constructor stores each argument under its own name; absent ones stay None'
    for cls, names, req in (('one_e_blocks', BLOCK4, True), ('two_e_blocks', BLOCK9, False),
                            ('two_e_blocks_full', BLOCK16, False)):
        vals = {b: mk('X' + b, [(so[k] if c == 'o' else sv[k],) for k, c in enumerate(b)], b) for b in names}

        def ver_all(res):
            out = []
            for b in names:
                v = R.block(res, b)
                if v is None:
                    out.append('%s: block %s is absent' % (cls, b))
                else:
                    out += R.tensor(v, vals[b].read(), '%s.%s' % (cls, b))
            return out
        R.run('ov_blocks', cls, lambda: (), ver_all, rule2, ' (all blocks)', kw=lambda: dict(vals))
        if req:
            R.run('ov_blocks', cls, lambda: tuple(vals[b] for b in names), ver_all, rule2, ' (positional)')
            continue
        for n, b in enumerate(names):
            def ver_one(res, b=b):
                out = []
                for c in names:
                    v = R.block(res, c)
                    if c == b:
                        if v is None:
                            out.append('%s: block %s is absent' % (cls, b))
                        else:
                            out += R.tensor(v, vals[b].read(), '%s.%s' % (cls, b))
                    elif v is not None:
                        out.append('%s: block %s is present although only %s was given' % (cls, c, b))
                return out
            R.run('ov_blocks', cls, lambda: (), ver_one, rule2, ' (only %s)' % b, kw=lambda b=b: {b: vals[b]})


# ---------------------------------------------------------------- C18

def vec(name, sp, axis, rank, kind='f'):
    """energies along one axis, broadcast: polynomial name(free index)"""
    a = poly.atom(name, 1, real=True)
    return {((a, axis),): Fraction(1)}


def c18(s, kinds='fc', denominators=True):
    R = Runner(s)
    rule = 'element-wise equality with the defining formula'
    if denominators:
        energy_denominators(R, rule)
    m1, n1, m2, n2 = (space(x) for x in ('m1', 'n1', 'm2', 'n2'))
    names = {'f': 'real', 'c': 'complex'}
    for ka, kb in [(k, k) for k in kinds] + ([('f', 'c'), ('c', 'f')] if 'c' in kinds else []):
        kind = T.kjoin(ka, kb)
        A = mk('Ablk', [m1, n1], 'A', kind=ka)
        B = mk('Bblk', [m2, n2], 'B', kind=kb)
        want = Tensor(((m1, m2), (n1, n2)), {(0, 0): A.read().blocks[(0, 0)], (1, 1): B.read().blocks[(0, 0)]}, kind)
        R.run('utils', 'block_diag', lambda: (A, B), lambda r: R.tensor(r, want, 'block_diag'), rule,
              ' (%s and %s)' % (names[ka], names[kb]), alias=True)


def energy_denominators(R, rule):
    e = {n: mk(n, [sp], n) for n, sp in (('ev', V), ('eo', O), ('eva', VA), ('evb', VB), ('eoa', OA), ('eob', OB))}

    def formula(axes, terms):
        p = {}
        for sign, n, ax in terms:
            a = poly.ATOM_IDS[n + '~']
            poly.padd_into(p, {((a, ax),): Fraction(sign)})
        return Tensor(tuple((x,) for x in axes), {(0,) * len(axes): p}, 'f')
    R.run('utils', 'D1', lambda: (e['ev'], e['eo']),
          lambda r: R.tensor(r, formula((V, O), [(1, 'ev', 0), (-1, 'eo', 1)]), 'D1'), rule, alias=True)
    R.run('utils', 'D2', lambda: (e['ev'], e['eo']),
          lambda r: R.tensor(r, formula((V, V, O, O), [(1, 'ev', 0), (1, 'ev', 1), (-1, 'eo', 2), (-1, 'eo', 3)]), 'D2'),
          rule, alias=True)
    R.run('utils', 'D2u', lambda: (e['eva'], e['evb'], e['eoa'], e['eob']),
          lambda r: R.tensor(r, formula((VA, VB, OA, OB), [(1, 'eva', 0), (1, 'evb', 1), (-1, 'eoa', 2), (-1, 'eob', 3)]),
                             'D2u'), rule, alias=True)


# ---------------------------------------------------------------- C19

def c19(s):
    R = Runner(s)
    I = R.I
    rule = 'declared shape and permutational symmetry hold identically in the random entries'
    o, v, n, g, n1, n2 = (Dim.sp(x) for x in (O, V, space('n'), space('g'), space('n1'), space('n2')))
    SPN = {'o': O, 'v': V, 'n': space('n'), 'g': space('g'), '1': space('n1'), '2': space('n2'),
           'A': VA, 'B': VB, 'a': OA, 'b': OB}

    def shape(t, spec, label, out):
        t = I.to_tensor(t)
        want = tuple((SPN[c],) if not s.small else (poly.ONE,) * T.Small.size(SPN[c]) for c in spec)
        if t.axes != want:
            out.append('%s has axes (%s), expected (%s)' % (label, ', '.join(axis_name(x) for x in t.axes),
                                                            ', '.join(axis_name(x) for x in want)))
            return None
        if not t.blocks:
            out.append('%s is identically zero' % label)
        elif not any('random#' in ATOMS[f[0]].name for p in t.blocks.values() for k in p for f in k):
            out.append('%s is not random' % label)
        return t

    def sym(t, perm, sign, label, out, other=None):
        if t is None:
            return
        u = T.transpose(other if other is not None else t, perm)
        if u.axes != t.axes:
            out.append('%s: the permuted array has other axes' % label)
            return
        s.bump('symmetry_relations_checked')
        d = T.add(t, u, -sign)
        bad = {k: poly.pclean(p) for k, p in d.blocks.items() if poly.pclean(p)}
        if bad:
            out.append('%s is not %s under axis permutation %s: %s' % (
                label, 'symmetric' if sign == 1 else 'antisymmetric', perm,
                poly.show(list(bad.values())[0], 'pqrstuvw', 4)))

    def rd(obj, b):
        x = R.block(obj, b)
        if x is None:
            raise Unknown('block %s is None' % b)
        return x

    def antis(t, spec, label, out, off=0):
        """antisymmetric in each pair whose two axes are of the same kind"""
        k = len(spec) - 4
        ident = list(range(len(spec)))
        for i, j in ((k, k + 1), (k + 2, k + 3)):
            if spec[i] == spec[j]:
                p = list(ident)
                p[i], p[j] = p[j], p[i]
                sym(t, tuple(p), -1, label, out)

    def vF(res):
        out = []
        t = {b: shape(rd(res, b), b, 'F.' + b, out) for b in BLOCK4}
        sym(t['oo'], (1, 0), 1, 'F.oo', out)
        sym(t['vv'], (1, 0), 1, 'F.vv', out)
        if t['ov'] is not None and t['vo'] is not None:
            sym(t['vo'], (1, 0), 1, 'F.vo vs F.ov', out, t['ov'])
        return out
    R.run('test_utils', 'make_random_F', lambda: (o, v), vF, rule)

    def swapname(b, p):
        return ''.join(b[k] for k in p)

    def vI(blocks, anti, prefix='I.'):
        def ver(res):
            out = []
            t = {b: shape(rd(res, b), b, prefix + b, out) for b in blocks}
            perms = [((1, 0, 3, 2), 1)] if not anti else [((1, 0, 3, 2), 1), ((1, 0, 2, 3), -1), ((0, 1, 3, 2), -1)]
            for b in blocks:
                for p, sg in perms:
                    c = swapname(b, p)
                    if c in t and t[b] is not None and t[c] is not None:
                        sym(t[b], p, sg, prefix + b + ('' if c == b else ' vs ' + c), out, t[c])
            return out
        return ver
    R.run('test_utils', 'make_random_I', lambda: (o, v), vI(BLOCK9, False), rule)
    R.run('test_utils', 'make_random_I_anti', lambda: (o, v), vI(BLOCK9, True), rule)
    R.run('test_utils', 'make_random_Ifull', lambda: (o, v), vI(BLOCK16, True), rule)

    def vint(res):
        a, b = two(res, 2)
        return vF(a) + vI(BLOCK9, True)(b)
    R.run('test_utils', 'make_random_integrals', lambda: (o, v), vint, rule)

    def vtot(res):
        out = []
        t = shape(res, 'nnnn', 'Itot', out)
        for p in ((1, 0, 3, 2), (2, 3, 0, 1), (3, 2, 1, 0)):
            sym(t, p, 1, 'Itot', out)
        return out
    R.run('test_utils', 'make_random_Itot', lambda: (n,), vtot, rule)
    so = [space('o%d' % k) for k in range(1, 5)]
    sv = [space('v%d' % k) for k in range(1, 5)]

    def vgen(res):
        if s.small:
            raise Unknown('no small instance')
        out = []
        seen = {}
        for b in BLOCK16:
            t = I.to_tensor(rd(res, b))
            want = tuple((so[k] if c == 'o' else sv[k],) for k, c in enumerate(b))
            if t.axes != want:
                out.append('block %s has axes (%s)' % (b, ', '.join(axis_name(x) for x in t.axes)))
                continue
            seen[b] = t.blocks.get((0,) * 4, {})
        ref = seen.get('oooo')
        for b, p in seen.items():
            if p != ref or not p:
                out.append('block %s is not a slice of the same underlying tensor as oooo' % b)
        return out
    R.run('test_utils', 'make_random_Ifull_gen', lambda: tuple(Dim.sp(x) for k in range(4) for x in (so[k], sv[k])), vgen,
          rule)

    def arrays(specs, anti=()):
        def ver(res):
            vals = flat(res)
            if len(vals) != len(specs):
                return ['%d arrays returned instead of %d' % (len(vals), len(specs))]
            out = []
            for k, (x, sp) in enumerate(zip(vals, specs)):
                t = shape(x, sp, 'array %d' % (k + 1), out)
                if k in anti:
                    antis(t, sp, 'array %d' % (k + 1), out)
            return out
        return ver
    R.run('test_utils', 'make_random_T', lambda: (o, v), arrays(['vo', 'vvoo'], (1,)), rule)
    R.run('test_utils', 'make_random_L', lambda: (o, v), arrays(['ov', 'oovv'], (1,)), rule)
    sp4 = lambda: (DIMS['noa'], DIMS['nva'], DIMS['nob'], DIMS['nvb'])
    R.run('test_utils', 'make_random_T1_spatial', sp4, arrays(['Aa', 'Bb']), rule)
    R.run('test_utils', 'make_random_T2_spatial', sp4, arrays(['AAaa', 'ABab', 'BBbb'], (0, 2)), rule)

    def vft(res):
        a, b = two(res, 2)
        out = []
        t = shape(a, 'nn', 'F', out)
        sym(t, (1, 0), 1, 'F', out)
        u = shape(b, 'nnnn', 'I', out)
        antis(u, 'nnnn', 'I', out)
        return out
    R.run('test_utils', 'make_random_ft_integrals', lambda: (n,), vft, rule)
    R.run('test_utils', 'make_random_ft_T', lambda: (g, n), arrays(['gnn', 'gnnnn'], (1,)), rule)
    R.run('test_utils', 'make_random_ft_T1_spatial', lambda: (g, n1, n2), arrays(['g11', 'g22']), rule)
    R.run('test_utils', 'make_random_ft_T2_spatial', lambda: (g, n1, n2), arrays(['g1111', 'g1212', 'g2222'], (0, 2)),
          rule)

    # denominators of one set of random energies: D[p,q] = e_p - e_q, D[p,q,r,s] = e_p + f_q - e_r - f_s
    def vD1(t, label, out):
        sym(t, (1, 0), -1, label, out)

    def vD(res):
        a, b = two(res, 2)
        out = []
        t = shape(a, 'nn', 'D1', out)
        vD1(t, 'D1', out)
        u = shape(b, 'nnnn', 'D2', out)
        sym(u, (1, 0, 2, 3), 1, 'D2', out)
        sym(u, (0, 1, 3, 2), 1, 'D2', out)
        sym(u, (2, 3, 0, 1), -1, 'D2', out)
        return out
    R.run('test_utils', 'make_random_ft_D', lambda: (n,), vD, rule)

    def vDa(res):
        out = []
        vD1(shape(res, 'nn', 'D1', out), 'D1', out)
        return out
    R.run('test_utils', 'make_random_ft_D1', lambda: (n,), vDa, rule)

    def vDb(res):
        out = []
        u = shape(res, '1212', 'D2', out)
        sym(u, (2, 3, 0, 1), -1, 'D2', out)
        return out
    R.run('test_utils', 'make_random_ft_D2', lambda: (n1, n2), vDb, rule)
