"""Checks of the electron-repulsion-integral helpers (C20 - C23)."""
import itertools
from fractions import Fraction

from . import poly, tensor as T
from .interp import AbsError, Binder
from .poly import space, named, NAMED_INFO
from .structchecks import Runner, BLOCK9
from .tensor import Dim, Tensor, Unknown
from .values import Arr, Cond, Gen, Native, Obj, PList, Top, Unshaped

AO = space('ao')
PAIR = [((2, 3, 0, 1), 1)]
EIGHT = PAIR + [((1, 0, 2, 3), 1), ((0, 1, 3, 2), 1)]

ASSUME = ['the library integral transformation returns the AO integrals contracted with the four orbital sets in order '
          '(bra orbitals conjugated for periodic systems), packed unless asked not to',
          'AO integrals are symmetric under exchange of the two electrons (and real with eightfold symmetry for molecules)']


# ---------------------------------------------------------------- models of the electronic-structure package

def ao_eri(kind, tag=''):
    if kind == 'mol':
        t = T.atom_tensor('eri', [AO] * 4, EIGHT, kind='f', real=True)
    else:
        t = T.atom_tensor('erik' + tag, [AO] * 4, PAIR, kind='c')
    return T.small(t) if T.Small.active else t


def transformed(eri, mos, pbc):
    ops = [eri]
    kind = 'f'
    for k, c in enumerate(mos):
        kind = T.kjoin(kind, c.kind)
        ops.append(T.conj(c) if pbc and k % 2 == 0 else c)
    t = T.einsum('mnls,mi,nj,lk,st->ijkt', ops)
    if not pbc or (pbc == 'gamma' and kind != 'c'):
        t = Tensor(t.axes, t.blocks, kind)
    return t


def four(I, mos):
    vals = I.concrete_iter(mos)
    if len(vals) == 1:
        vals = vals * 4
    if len(vals) != 4:
        raise Unknown('number of orbital sets')
    return [I.to_tensor(v) for v in vals]


def need_full(I, compact):
    if compact is not False and not (isinstance(compact, int) and compact == 0):
        if isinstance(compact, (bool, int)):
            raise AbsError('the transformation packs pairs when the two orbital sets of a pair coincide (compact is not off)',
                           I.loc)
        raise Unknown('compact')


def m_general(I, mol, mos, *rest, **kw):
    if not (isinstance(mol, Obj) and mol.cls == 'mol'):
        raise Unknown('integrals of something else than the molecule')
    if rest:
        raise Unknown('positional options of the transformation')
    need_full(I, kw.get('compact', True))
    if set(kw) - {'compact', 'verbose', 'aosym', 'dataname', 'ioblk_size', 'max_memory'}:
        raise Unknown('options of the transformation')
    if kw.get('aosym', 's4') not in ('s4', 's8', 's1'):
        raise Unknown('aosym')
    I.transforms = getattr(I, 'transforms', 0) + 1
    return Unshaped(transformed(ao_eri('mol'), four(I, mos), False))


class KVec(object):
    """k-point index: integer combination of k-point variables modulo reciprocal lattice vectors"""
    def __init__(self, v):
        self.v = {k: c for k, c in v.items() if c}

    @staticmethod
    def of(x):
        if isinstance(x, KVec):
            return x
        if isinstance(x, Dim) and x.c == 0 and len(x.t) == 1:
            (s, c), = x.t.items()
            if c == 1 and s < 0:
                return KVec({s: 1})
        if isinstance(x, Top):
            raise Unknown(x.why)
        raise Unknown('k-point index %r' % (x,))

    def add(self, o, c=1):
        v = dict(self.v)
        for k, n in o.v.items():
            v[k] = v.get(k, 0) + c * n
        return KVec(v)

    def simple(self):
        if list(self.v.values()) == [1]:
            return list(self.v)[0]
        return None

    def key(self):
        return tuple(sorted(self.v.items()))

    def subst(self, m):
        v = {}
        for k, c in self.v.items():
            v[m.get(k, k)] = v.get(m.get(k, k), 0) + c
        return KVec(v)

    def __repr__(self):
        return 'k<%s>' % ' '.join('%+d*%s' % (c, NAMED_INFO[k][0]) for k, c in sorted(self.v.items()))

    def sa_compare(self, I, op, o, refl):
        if op not in ('Eq', 'NotEq'):
            raise Unknown('order of k-points')
        d = self.add(KVec.of(o), -1)
        if not d.v:
            return op == 'Eq'
        k = max(d.key(), KVec({x: -c for x, c in d.v.items()}).key())
        return Cond(('momentum', k), op == 'NotEq')


class KCons(object):
    """table of the fourth k-point index: k1 - k2 + k3"""
    def __init__(self, n=None):
        self.n = n

    def sa_getitem(self, I, idx):
        if not isinstance(idx, tuple) or len(idx) != 3:
            raise Unknown('momentum table index')
        if self.n and all(isinstance(x, int) for x in idx):
            return kfourth(*idx, self.n)
        a, b, c = (KVec.of(x) for x in idx)
        return a.add(b, -1).add(c)


def kfourth(a, b, c, n):
    """a - b + c: four k-points are the 2 x 2 mesh, any other number a line"""
    return a ^ b ^ c if n == 4 else (a - b + c) % n


def kfix(k):
    return KVec({named('K%d' % k): 1})


class KPoint(object):
    def __init__(self, vec):
        self.vec = vec


class KSeq(object):
    """per-k-point data: item(KVec) -> value"""
    def __init__(self, item, fixed=None, n=None):
        self.item = item
        self.fixed = fixed
        self.n = n              # number of k-points when it is fixed

    def sa_getitem(self, I, idx):
        if self.n and isinstance(idx, int) and -self.n <= idx < self.n:
            return self.item(kfix(idx % self.n))
        if isinstance(idx, int) and self.fixed is not None:
            return self.fixed(idx)
        return self.item(KVec.of(idx))

    def sa_len(self, I):
        return self.n or Dim.sp(K)

    def sa_iter(self, I):
        if self.n:
            return [Gen([], [], self.item(kfix(k))) for k in range(self.n)]
        v = I.fresh_var('k')
        return [Gen([Binder(v, 0, Dim.sp(K))], [], self.item(KVec({v: 1})))]

    def sa_getattr(self, I, name):
        if name == 'shape':
            return (self.n or Dim.sp(K), Top('shape'))
        raise Unknown('attribute %s' % name)


K = space('k')
NMO = space('nmo')


def kdata(name, vec, axes, kind='c', sym=()):
    """array belonging to one k-point"""
    s = vec.simple()
    if s is not None:
        nm, args = name, (s,)
    else:
        pos = sorted(k for k, c in vec.v.items() if c > 0)
        neg = sorted(k for k, c in vec.v.items() if c < 0)
        if any(abs(c) != 1 for c in vec.v.values()):
            raise Unknown('k-point combination')
        nm, args = '%s@%d,%d' % (name, len(pos), len(neg)), tuple(pos + neg)
        n = len(args) + len(axes)
        gens = []
        for k in list(range(len(pos) - 1)) + [len(pos) + j for j in range(len(neg) - 1)]:
            p = list(range(n))
            p[k], p[k + 1] = p[k + 1], p[k]
            gens.append((tuple(p), 1))
        sym = gens
    a = poly.atom(nm, len(args) + len(axes), sym)
    p = {((a,) + args + tuple(range(len(axes))),): Fraction(1)}
    s, m = poly.canon(list(list(p)[0]))
    return Tensor(tuple((x,) for x in axes), {(0,) * len(axes): {m: Fraction(s)}}, kind)


def keri(vecs):
    """AO integrals for four k-points"""
    order = []
    for v in vecs:
        s = v.simple()
        if s is not None and s not in order:
            order.append(s)
    for v in vecs:
        for s in sorted(v.v):
            if s not in order:
                order.append(s)
    name = 'erik[%s]' % '|'.join(','.join('%+d.%d' % (v.v[s], order.index(s)) for s in order if s in v.v) for v in vecs)
    a = poly.atom(name, len(order) + 4)
    p = {((a,) + tuple(order) + (0, 1, 2, 3),): Fraction(1)}
    return Tensor(((AO,),) * 4, {(0,) * 4: p}, 'c')


def df_ao2mo(I, self, mos, kpts=None, compact=True, **kw):
    need_full(I, compact)
    I.transforms = getattr(I, 'transforms', 0) + 1
    cs = four(I, mos)
    if isinstance(kpts, (tuple, PList)):
        vals = I.concrete_iter(kpts)
        if len(vals) != 4 or not all(isinstance(v, KPoint) for v in vals):
            raise Unknown('k-points of the transformation')
        if all(v.vec == 'kpt' for v in vals):
            kpts = vals[0]
        else:
            return Unshaped(transformed(keri([v.vec for v in vals]), cs, 'k'))
    if isinstance(kpts, KPoint):
        if kpts.vec != 'kpt':
            return Unshaped(transformed(keri([kpts.vec] * 4), cs, 'k'))
        return Unshaped(transformed(ao_eri('pbc'), cs, getattr(I, 'pbc_mode', 'gamma')))
    if kpts is None:
        return Unshaped(transformed(ao_eri('pbc', '@default'), cs, getattr(I, 'pbc_mode', 'gamma')))
    raise Unknown('k-points of the transformation')


def pbc_mf(**extra):
    df = Obj('df', {}, origin='argument mf')
    df.attrs['ao2mo'] = Native('ao2mo', df_ao2mo, df)
    mf = Obj('mf', dict(extra), origin='argument mf')
    mf.attrs.update({'with_df': df, 'kpt': KPoint('kpt'), 'cell': Obj('cell', origin='argument mf')})
    return mf


def mol_mf(**extra):
    return Obj('mf', dict({'mol': Obj('mol', origin='argument mf')}, **extra), origin='argument mf')


def kmf_model(n=None):
    df = Obj('df', {}, origin='argument kmf')
    df.attrs['ao2mo'] = Native('ao2mo', df_ao2mo, df)
    cell = Obj('cell', origin='argument kmf')
    kpts = KSeq(lambda v: KPoint(v), n=n)

    def orb(v):
        a = Arr(kdata('Ck', v, (AO, NMO)))
        a.origin = 'argument kmf'
        return a

    def hcore(I, *a):
        return KSeq(lambda v: Arr(kdata('hk', v, (AO, AO))), n=n)

    def occ(v):
        a = Arr(kdata('occ', v, (NMO,), 'f'))
        a.origin = 'argument kmf'
        return a
    return Obj('kmf', {'with_df': df, 'cell': cell, 'kpts': kpts, 'mo_coeff': KSeq(orb, lambda n: Arr(
        T.atom_tensor('C#%d' % n, (AO, NMO))), n), 'get_hcore': Native('get_hcore', hcore),
        'mo_occ': KSeq(occ, lambda n: Arr(T.atom_tensor('occ#%d' % n, (NMO,), kind='f', real=True)), n),
        '__isinstance__': {'pyscf.scf.hf.RHF': True, 'pyscf.pbc.scf.khf.KRHF': True, 'pyscf.scf.uhf.UHF': False}},
        origin='argument kmf')


def kpts_helper(I, cell, kpts, **kw):
    if not (isinstance(cell, Obj) and cell.cls == 'cell' and isinstance(kpts, KSeq)):
        raise Unknown('k-point helper')
    return Obj('khelper', {'kconserv': KCons(kpts.n)})


def get_kconserv(I, cell, kpts, **kw):
    if not (isinstance(cell, Obj) and cell.cls == 'cell' and isinstance(kpts, KSeq)):
        raise Unknown('momentum table')
    return KCons(kpts.n)


class IRunner(Runner):
    def __init__(self, s):
        Runner.__init__(self, s)
        I = self.I
        for nm in ('pyscf.ao2mo.general', 'pyscf.ao2mo.kernel', 'pyscf.ao2mo.outcore.general_iofree'):
            I.ext[nm] = m_general
        I.ext['pyscf.pbc.lib.kpts_helper.KptsHelper'] = kpts_helper
        for nm in ('pyscf.pbc.tools.get_kconserv', 'pyscf.pbc.tools.pbc.get_kconserv',
                   'pyscf.pbc.lib.kpts_helper.get_kconserv'):
            I.ext[nm] = get_kconserv
        for a in ASSUME:
            if a not in s.assumptions:
                s.assumptions.append(a)

    def run(self, mod, fn, args, verify, rule, variant='', kw=None, **opts):
        Runner.run(self, mod, fn, args, verify, rule, variant, kw=kw, **opts)
        if kw == {'anti': False}:
            # plain integrals are the default
            Runner.run(self, mod, fn, args, verify, rule, variant.replace('plain', 'default'), **opts)


# ---------------------------------------------------------------- specification

def spaces(tag, n=4):
    return [space('%s%d' % (tag, k + 1)) for k in range(n)]


def orbs(tag, sps, kinds='f'):
    """orbital sets; kinds: one letter for all of them or one letter per set"""
    out = []
    for k, sp in enumerate(sps):
        kind = kinds[k % len(kinds)]
        a = Arr(T.atom_tensor(tag + ('' if kind == 'c' else '~'), [AO, sp], kind=kind, real=(kind != 'c')))
        a.origin = 'argument %s%d' % (tag, k + 1)
        out.append(a)
    return out


def chem(eri, mos, pbc, anti=False):
    """(12|34) [- (14|32)], axes 1,2,3,4; mos: four Tensors"""
    t = transformed(eri, mos, pbc)
    if anti:
        x = transformed(eri, [mos[0], mos[3], mos[2], mos[1]], pbc)
        t = T.add(t, T.transpose(x, (0, 3, 2, 1)), -1)
    return t


def phys(eri, mos, pbc, anti=False):
    return T.transpose(chem(eri, [mos[0], mos[2], mos[1], mos[3]], pbc, anti), (0, 2, 1, 3))


def uchem(eri, a, b, pbc, anti=False):
    """spin-orbital chemists' tensor from alpha sets a and beta sets b (four Tensors each)"""
    sets = (a, b)
    axes = tuple(x.axes[1] + y.axes[1] for x, y in zip(a, b))
    assert all(len(ax) >= 2 for ax in axes)
    na = [len(x.axes[1]) for x in a]
    blocks = {}
    kind = 'c' if pbc not in (False, 'gamma') else T.kjoin(*[x.kind for x in a + b])

    def put(sp, t, sign=1):
        off = [0 if s == 0 else na[k] for k, s in enumerate(sp)]
        for key, p in t.blocks.items():
            kk = tuple(x + y for x, y in zip(key, off))
            blocks[kk] = poly.padd(blocks.get(kk, {}), p, sign)
    for s in (0, 1):
        for u in (0, 1):
            put((s, s, u, u), transformed(eri, [sets[s][0], sets[s][1], sets[u][2], sets[u][3]], pbc))
            if anti:
                # (14|32) with electron one of spin s and electron two of spin u
                x = transformed(eri, [sets[s][0], sets[s][3], sets[u][2], sets[u][1]], pbc)
                put((s, u, u, s), T.transpose(x, (0, 3, 2, 1)), -1)
    t = Tensor(axes, {k: p for k, p in blocks.items() if poly.pclean(p)}, kind)
    return t


def uphys(eri, a, b, pbc, anti=False):
    sw = lambda x: [x[0], x[2], x[1], x[3]]
    return T.transpose(uchem(eri, sw(a), sw(b), pbc, anti), (0, 2, 1, 3))


# which of four orbital sets are the same object
PATTERNS = [p for p in itertools.product(range(4), repeat=4) if all(p[k] <= (max(p[:k]) + 1 if k else 0) for k in range(4))
            and len(set(p)) < 4]

SHARED = ((0,), (1,), (2,), (3,), (0, 1), (2, 3), (0, 1, 2, 3))

R20 = 'axis k runs over the k-th orbital set; the value is the stated (antisymmetrised) integral'


def c20(s):
    R = IRunner(s)
    mol = Obj('mol', origin='argument mol')
    o = orbs('C', spaces('o'))
    m = [x.read() for x in o]
    eri = ao_eri('mol')
    args = lambda: (mol,) + tuple(o)
    mf = mol_mf()
    for fn, spec, first, anti in (
            ('get_chem', chem, mol, (False, True)), ('get_phys', phys, mol, (False, True)),
            ('get_chem_anti', chem, mol, None), ('get_phys_anti', phys, mol, None),
            ('get_phys_gen', phys, mf, (False, True))):
        for a in anti or (True,):
            want = spec(eri, m, False, a)
            kw = {'anti': a} if anti else {}
            R.run('integrals', fn, lambda first=first: (first,) + tuple(o), lambda r: R.tensor(r, want, fn), R20,
                  ' (%s)' % ('antisymmetrised' if a else 'plain'), kw=kw)
    # the same set in several positions
    for pat in PATTERNS:
        for fn, spec in (('get_chem', chem), ('get_phys', phys)):
            want = spec(eri, [m[k] for k in pat], False, True)
            R.run('integrals', fn, lambda: (mol,) + tuple(o[k] for k in pat), lambda r: R.tensor(r, want, fn), R20,
                  ' (sets %s, antisymmetrised)' % ' '.join(str(k + 1) for k in pat), kw={'anti': True})
    s.bump('integral_transformations', getattr(R.I, 'transforms', 0))


R21 = 'spin blocks: alpha before beta, each electron keeps its spin, exchange subtracted'


def uset(tagA, tagB, kind='f', kindb=None):
    a = orbs('Ca', spaces(tagA), kind)
    b = orbs('Cb', spaces(tagB), kindb or kind)
    return a, b


def c21(s):
    R = IRunner(s)
    mol = Obj('mol', origin='argument mol')
    a, b = uset('a', 'b')
    ta, tb = [x.read() for x in a], [x.read() for x in b]
    eri = ao_eri('mol')
    for fn, spec, anti in (('get_chemu', uchem, (False, True)), ('get_chem_antiu', uchem, None),
                           ('get_phys_antiu', uphys, None)):
        for x in anti or (True,):
            want = spec(eri, ta, tb, False, x)
            R.run('integrals', fn, lambda: (mol,) + tuple(a) + tuple(b), lambda r: R.tensor(r, want, fn), R21,
                  ' (%s)' % ('antisymmetrised' if x else 'plain'), kw={'anti': x} if anti else {})
    # some alpha sets are the beta sets
    for same in SHARED:
        pb = [a[k] if k in same else b[k] for k in range(4)]
        want = uchem(eri, ta, [x.read() for x in pb], False, True)
        R.run('integrals', 'get_chemu', lambda: (mol,) + tuple(a) + tuple(pb), lambda r: R.tensor(r, want, 'get_chemu'), R21,
              ' (antisymmetrised, alpha and beta share sets %s)' % ' '.join(str(k + 1) for k in same), kw={'anti': True})
    # the same sets in several positions
    for pat in PATTERNS:
        qa, qb = [a[k] for k in pat], [b[k] for k in pat]
        want = uchem(eri, [x.read() for x in qa], [x.read() for x in qb], False, True)
        R.run('integrals', 'get_chemu', lambda: (mol,) + tuple(qa) + tuple(qb), lambda r: R.tensor(r, want, 'get_chemu'), R21,
              ' (sets %s of both spins, antisymmetrised)' % ' '.join(str(k + 1) for k in pat), kw={'anti': True})
    for fn, spec, anti in (('get_chemu_all', uchem, (False, True)), ('get_physu_all', uphys, (False, True)),
                           ('get_chem_antiu_all', uchem, None), ('get_phys_antiu_all', uphys, None)):
        for x in anti or (True,):
            want = spec(eri, [ta[0]] * 4, [tb[0]] * 4, False, x)
            R.run('integrals', fn, lambda: (mol, a[0], b[0]), lambda r: R.tensor(r, want, fn), R21,
                  ' (%s)' % ('antisymmetrised' if x else 'plain'), kw={'anti': x} if anti else {})
    gen_all(R, False, R21)
    s.bump('integral_transformations', getattr(R.I, 'transforms', 0))


MOSEG = [space('m%d' % k) for k in range(1, 5)]


def mo_arrays(unrestricted, kind='f'):
    """(mo_coeff, mo_occ, per-spin coefficient tensors, per-spin occupied segments)"""
    ax = tuple(MOSEG)
    nm = 'Cmo' + ('' if kind == 'c' else '~')
    if not unrestricted:
        c = T.atom_tensor(nm, [(AO,), ax], kind=kind, real=(kind != 'c'))
        occ = Tensor((ax,), {(k,): poly.pconst(2) for k in (0, 2)}, 'f')
        return c, occ, (c, c), ((0, 2), (0, 2))
    ca = T.atom_tensor('a' + nm, [(AO,), ax], kind=kind, real=(kind != 'c'))
    cb = T.atom_tensor('b' + nm, [(AO,), ax], kind=kind, real=(kind != 'c'))
    c = T.concat([T.add_axis(ca, 0), T.add_axis(cb, 0)], 0)
    blocks = {(0, k): poly.pconst(1) for k in (0, 2)}
    blocks.update({(1, k): poly.pconst(1) for k in (1, 2)})
    occ = Tensor(((poly.ONE, poly.ONE), ax), blocks, 'f')
    return c, occ, (ca, cb), ((0, 2), (1, 2))


def own(t, label):
    a = Arr(t)
    a.origin = 'argument ' + label
    return a


def make_mf(pbc, unrestricted, kind='f'):
    c, occ, per, seg = mo_arrays(unrestricted, kind)
    ex = {'mo_coeff': own(c, 'mf.mo_coeff'), 'mo_occ': own(occ, 'mf.mo_occ')}
    return (pbc_mf(**ex) if pbc else mol_mf(**ex)), per, seg


def gen_all(R, pbc, rule):
    kind = 'c' if pbc else 'f'
    eri = ao_eri('pbc' if pbc else 'mol')
    mode = 'gamma' if pbc else False
    for unr in (False, True):
        mf, per, seg = make_mf(pbc, unr, kind)
        lab = '%s reference%s' % ('unrestricted' if unr else 'restricted', ', periodic' if pbc else '')
        for x in (False, True):
            want = uphys(eri, [per[0]] * 4, [per[1]] * 4, mode, x)
            R.run('integrals', 'get_physu_all_gen', lambda: (mf,), lambda r: R.tensor(r, want, 'integrals'), rule,
                  ' (%s, %s)' % ('antisymmetrised' if x else 'plain', lab), kw={'anti': x})
        want = uphys(eri, [per[0]] * 4, [per[1]] * 4, mode, True)
        R.run('integrals', 'get_phys_antiu_all_gen', lambda: (mf,), lambda r: R.tensor(r, want, 'integrals'), rule,
              ' (%s)' % lab)


def sol_sets(R, mf, eri, o, sets, mode, rule, tag=''):
    """the periodic helpers at one k-point for the orbital sets o (spin-restricted) and sets (alpha, beta)"""
    m = [x.read() for x in o]
    for fn, spec in (('get_chem_sol', chem), ('get_phys_sol', phys), ('get_phys_gen', phys)):
        for x in (False, True):
            want = spec(eri, m, mode, x)
            R.run('integrals', fn, lambda: (mf,) + tuple(o), lambda r: R.tensor(r, want, fn), rule,
                  ' (%s%s)' % ('antisymmetrised' if x else 'plain', tag), kw={'anti': x})
    a, b = sets
    ta, tb = [x.read() for x in a], [x.read() for x in b]
    for fn, spec, anti in (('get_chemu_sol', uchem, (False, True)), ('get_chem_antiu_sol', uchem, None),
                           ('get_phys_antiu_sol', uphys, None)):
        for x in anti or (True,):
            want = spec(eri, ta, tb, mode, x)
            R.run('integrals', fn, lambda: (mf,) + tuple(a) + tuple(b), lambda r: R.tensor(r, want, fn), rule,
                  ' (%s%s)' % ('antisymmetrised' if x else 'plain', tag), kw={'anti': x} if anti else {})
    for fn, spec in (('get_chemu_all_sol', uchem), ('get_physu_all_sol', uphys)):
        for x in (False, True):
            want = spec(eri, [ta[0]] * 4, [tb[0]] * 4, mode, x)
            R.run('integrals', fn, lambda: (mf, a[0], b[0]), lambda r: R.tensor(r, want, fn), rule,
                  ' (%s%s)' % ('antisymmetrised' if x else 'plain', tag), kw={'anti': x})


def shared_sets(R, mf, eri, o, sets, mode, rule):
    """the same orbital set in several positions"""
    m = [x.read() for x in o]
    for pat in PATTERNS:
        want = chem(eri, [m[k] for k in pat], mode, True)
        R.run('integrals', 'get_chem_sol', lambda: (mf,) + tuple(o[k] for k in pat), lambda r: R.tensor(r, want, 'get_chem_sol'), rule,
              ' (sets %s, antisymmetrised)' % ' '.join(str(k + 1) for k in pat), kw={'anti': True})
    a, b = sets
    for pat in PATTERNS:
        qa, qb = [a[k] for k in pat], [b[k] for k in pat]
        want = uchem(eri, [x.read() for x in qa], [x.read() for x in qb], mode, True)
        R.run('integrals', 'get_chemu_sol', lambda: (mf,) + tuple(qa) + tuple(qb), lambda r: R.tensor(r, want, 'get_chemu_sol'), rule,
              ' (sets %s of both spins, antisymmetrised)' % ' '.join(str(k + 1) for k in pat), kw={'anti': True})
    for same in SHARED:
        pb = [a[k] if k in same else b[k] for k in range(4)]
        want = uchem(eri, [x.read() for x in a], [x.read() for x in pb], mode, True)
        R.run('integrals', 'get_chemu_sol', lambda: (mf,) + tuple(a) + tuple(pb), lambda r: R.tensor(r, want, 'get_chemu_sol'), rule,
              ' (antisymmetrised, alpha and beta share sets %s)' % ' '.join(str(k + 1) for k in same), kw={'anti': True})


def c34_sets(R, rule):
    """real and complex orbital sets side by side, and real orbitals away from the zone centre: the result is complex"""
    eri = ao_eri('pbc')
    sp = spaces('o')
    for ka, kb, mode, tag in (('c', 'c', 'gamma', ', complex orbitals'), ('f', 'c', 'gamma', ', real alpha and complex beta orbitals'),
                              ('c', 'f', 'gamma', ', complex alpha and real beta orbitals'),
                              ('fcff', 'f', 'gamma', ', second alpha set complex'),
                              ('f', 'fffc', 'gamma', ', fourth beta set complex'),
                              ('f', 'f', True, ', real orbitals at a k-point')):
        R.I.pbc_mode = mode
        sol_sets(R, pbc_mf(), eri, orbs('C', sp, ka), uset('a', 'b', ka, kb), mode, rule, tag)
    R.I.pbc_mode = 'gamma'


R22 = 'periodic integrals: conventions of the molecular ones, bra conjugated, k-points of their own axes, momentum conserved'


def c22(s):
    R = IRunner(s)
    I = R.I
    mf = pbc_mf()
    o = orbs('C', spaces('o'), 'c')
    m = [x.read() for x in o]
    eri = ao_eri('pbc')
    sol_sets(R, mf, eri, o, uset('a', 'b', 'c'), 'gamma', R22)
    shared_sets(R, mf, eri, o, uset('a', 'b', 'c'), 'gamma', R22)
    gen_all(R, True, R22)
    # k-points
    kmf = kmf_model()
    kn = [named('kpt%d' % k) for k in range(1, 5)]
    kv = [KVec({k: 1}) for k in kn]
    ix = [Dim({k: 1}) for k in kn]
    for fn, swap in (('get_chem_solk', False), ('get_phys_solk', True)):
        for x in (False, True):
            # conserving: the last index is what the momentum table gives
            k3 = (kv[0].add(kv[1], -1).add(kv[2])) if not swap else (kv[0].add(kv[2], -1).add(kv[1]))
            vec = kv[:3] + [k3]
            if swap:
                cv, cm = [vec[0], vec[2], vec[1], vec[3]], [m[0], m[2], m[1], m[3]]
            else:
                cv, cm = vec, m
            want = transformed(keri(cv), cm, 'k')
            if x:
                ex = transformed(keri([cv[0], cv[3], cv[2], cv[1]]), [cm[0], cm[3], cm[2], cm[1]], 'k')
                want = T.add(want, T.transpose(ex, (0, 3, 2, 1)), -1)
            if swap:
                want = T.transpose(want, (0, 2, 1, 3))
            R.run('integrals', fn, lambda: (kmf, (ix[0], ix[1], ix[2], k3)) + tuple(o),
                  lambda r: R.tensor(r, want, fn), R22, ' (momentum conserved, %s)' % ('antisymmetrised' if x else 'plain'),
                  kw={'anti': x})
            # any other fourth index: identically zero
            d = kv[3].add(k3, -1)
            key = ('momentum', max(d.key(), KVec({y: -c for y, c in d.v.items()}).key()))
            zero = T.zeros(tuple(t.axes[1] for t in m), 'c')

            def vz(r, key=key, zero=zero):
                if I.known_guard(key) is True:
                    return []
                return R.tensor(r, zero, '%s (momentum not conserved)' % fn)
            R.run('integrals', fn, lambda: (kmf, tuple(ix)) + tuple(o), vz, R22,
                  ' (momentum not conserved, %s)' % ('antisymmetrised' if x else 'plain'), kw={'anti': x})
    for order, chemist in (('chem', True), ('phys', False), ('Physicist', False)):
        vs = [KVec({named('kax%d' % k): 1}) for k in range(3)]
        last = vs[0].add(vs[1], -1).add(vs[2]) if chemist else vs[0].add(vs[2], -1).add(vs[1])
        vec = vs + [last]
        cs = [kdata('Ck', v, (AO, NMO)) for v in vec]
        if chemist:
            blk = transformed(keri(vec), cs, 'k')
        else:
            cv = [vec[0], vec[2], vec[1], vec[3]]
            blk = T.transpose(transformed(keri(cv), [cs[0], cs[2], cs[1], cs[3]], 'k'), (0, 2, 1, 3))
        ren = {named('kax%d' % k): k for k in range(3)}
        p = poly.pmap(blk.blocks[(0,) * 4], lambda i: ren[i] if i in ren else (i + 3 if 0 <= i < 1000 else i))
        h2 = Tensor(((K,),) * 3 + ((NMO,),) * 4, {(0,) * 7: p}, 'c')
        hk = T.einsum('mi,mn,nj->ij', [T.conj(cs[0]), kdata('hk', vs[0], (AO, AO)), cs[0]])
        ren0 = {named('kax0'): 0}
        p1 = poly.pmap(hk.blocks[(0, 0)], lambda i: ren0[i] if i in ren0 else (i + 1 if 0 <= i < 1000 else i))
        h1 = Tensor(((K,), (NMO,), (NMO,)), {(0,) * 3: p1}, 'c')

        def ver(r):
            if not isinstance(r, tuple) or len(r) != 2:
                raise Unknown('result')
            return R.tensor(r[0], h1, 'one-electron integrals') + R.tensor(r[1], h2, 'two-electron integrals')
        R.run('integrals', 'get_solk_integrals', lambda: (kmf,), ver, R22, ' (%s)' % order, kw={'eriorder': order})
    R.run('integrals', 'get_solk_integrals', lambda: (kmf,), lambda r: [], R22, ' (default order runs)')
    # three k-points on a line, four in a plane: every index is a number
    for n, label, order in itertools.chain.from_iterable([(3, 'three k-points', o), (4, '2 x 2 k-points', o)] for o in ('chem', 'phys')):
        kmfn = kmf_model(n)
        ck = [kdata('Ck', kfix(k), (AO, NMO)) for k in range(n)]
        chemist = order == 'chem'
        blocks = {}
        for k in itertools.product(range(n), repeat=3):
            last = kfourth(*(k if chemist else (k[0], k[2], k[1])), n)
            cv = (k[0], k[1], k[2], last) if chemist else (k[0], k[2], k[1], last)
            t = transformed(keri([kfix(x) for x in cv]), [ck[x] for x in cv], 'k')
            blk = t if chemist else T.transpose(t, (0, 2, 1, 3))
            blocks[k + (0,) * 4] = poly.pmap(blk.blocks[(0,) * 4], lambda i: i + 3 if 0 <= i < 1000 else i)
        h2 = Tensor(((poly.ONE,) * n,) * 3 + ((NMO,),) * 4, blocks, 'c')
        R.run('integrals', 'get_solk_integrals', lambda kmfn=kmfn: (kmfn,),
              lambda r, h2=h2: R.tensor(r[1], h2, 'two-electron integrals') if isinstance(r, tuple) and len(r) == 2 else ['not a pair'],
              R22, ' (%s, %s)' % (label, order), kw={'eriorder': order})
    s.bump('integral_transformations', getattr(R.I, 'transforms', 0))


R23 = 'request code selects exactly its block; block = antisymmetrised integral over the orbitals named by its label'


def c23(s):
    R = IRunner(s)
    I = R.I
    for pbc in (False, True):
        kind = 'c' if pbc else 'f'
        eri = ao_eri('pbc' if pbc else 'mol')
        for unr in (False, True):
            mf, per, seg = make_mf(pbc, unr, kind)

            def sel(sp, c):
                ks = [k for k in range(len(MOSEG)) if (k in seg[sp]) == (c == 'o')]
                return T.select(per[sp], 1, ks, [MOSEG[k] for k in ks])
            want = {}
            for b in BLOCK9:
                want[b] = uphys(eri, [sel(0, c) for c in b], [sel(1, c) for c in b], 'gamma' if pbc else False, True)
            for code in range(0, 10):
                def ver(res, code=code):
                    out = []
                    for n, b in enumerate(BLOCK9_CODES):
                        expected = code in (0, n + 1)
                        flag = R.block(res, 'has_' + b)
                        if flag is not expected:
                            if not isinstance(flag, (bool, int)):
                                raise Unknown('flag has_%s' % b)
                            if bool(flag) != expected:
                                out.append('code %d: has_%s is %s' % (code, b, flag))
                        held = isinstance(res, Obj) and res.attrs.get(b) is not None
                        if held != expected:
                            out.append('code %d: block %s is %s' % (code, b, 'held' if held else 'absent'))
                        if held:
                            out += R.tensor(res.attrs[b], want[b], 'block ' + b)
                    return out
                R.run('integrals', 'eri_blocks', lambda: (mf,), ver, R23,
                      ' (code %d, %s%s)' % (code, 'unrestricted' if unr else 'restricted', ', periodic' if pbc else ''),
                      kw={'code': code})
            if not pbc:
                R.run('integrals', 'eri_blocks', lambda: (mf,), lambda r: ver0(R, r, want), R23,
                      ' (default code, %s)' % ('unrestricted' if unr else 'restricted'))
    s.bump('integral_transformations', getattr(I, 'transforms', 0))


BLOCK9_CODES = ['vvvv', 'vvvo', 'vovv', 'vvoo', 'vovo', 'oovv', 'vooo', 'ooov', 'oooo']


def ver0(R, res, want):
    out = []
    for b in BLOCK9_CODES:
        if R.block(res, 'has_' + b) is not True:
            out.append('has_%s is not set' % b)
        out += R.tensor(R.block(res, b), want[b], 'block ' + b)
    return out
