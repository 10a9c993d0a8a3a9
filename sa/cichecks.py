"""Checks of determinant strings, CI bases, matrix elements and CI vectors (C24 - C29) and boson strings (C33)."""
import itertools
from fractions import Fraction

from . import cistrings as cs, poly, tensor as T
from .ccchecks import funcloc
from .framework import compare_poly, compare_tensor, empty_spaces, shares_memory
from .interp import AbsError, Binder, IndexOf
from .poly import ONE, PAIR4, SGN, named, space
from .tensor import Dim, Tensor, Unknown, axis_name
from .values import Arr, Cond, Entry, Obj, PList, Top

ASSUME = ['occupation vectors hold zeros and ones, integrals and amplitudes are exact ring elements (no rounding)',
          'orbital counts, positions and the occupation of uninvolved orbitals are symbolic: one analysed case covers all of '
          'them for a given relative order of the involved orbitals']


# ---------------------------------------------------------------- strings cut at the involved orbitals

class Layout(object):
    """an orbital axis with the involved orbitals (labels, in increasing order) singled out; gaps of any length between"""

    def __init__(self, tag, labels):
        self.tag = tag
        self.labels = list(labels)
        self.gaps = [space('%s.gap%d' % (tag, k)) for k in range(len(labels) + 1)]
        axis = []
        for k, l in enumerate(labels):
            axis += [self.gaps[k], ONE]
        axis.append(self.gaps[-1])
        self.axis = tuple(axis)
        self.n = T.axis_dim(self.axis).simp()
        self.pos = {}
        off = Dim()
        for k, l in enumerate(labels):
            off = off.add(Dim.sp(self.gaps[k]))
            self.pos[l] = off.simp()
            off = off.add(1)

    def occ(self, I, vals, name='n'):
        """occupation vector: unknown zeros and ones in the gaps, vals at the labelled orbitals"""
        a = poly.atom('%s:%s' % (name, self.tag), 1, real=True)
        I.bit_atoms.add(a)
        poly.BITS.add(a)
        blocks = {}
        for k in range(len(self.axis)):
            if k % 2 == 0:
                blocks[(k,)] = {((a, 0),): Fraction(1)}
            elif vals[self.labels[k // 2]]:
                blocks[(k,)] = poly.pconst(vals[self.labels[k // 2]])
        return Tensor((self.axis,), blocks, 'i')

    def count(self, occ, lo, hi):
        """number of filled orbitals in the segments lo .. hi-1"""
        t = T.select(occ, 0, list(range(lo, hi)), self.axis[lo:hi])
        return T.sum_all(t) if lo < hi else T.const(0)

    def seg(self, label):
        return 2 * self.labels.index(label) + 1

    def apply(self, I, vals, ops):
        """operators ('c'/'a', label) applied from the right: (sign polynomial, new values) or None"""
        vals = dict(vals)
        total = T.const(0)
        for kind, l in reversed(ops):
            if vals[l] != (0 if kind == 'c' else 1):
                return None
            total = T.add(total, self.count(self.occ(I, vals), 0, self.seg(l)))
            vals[l] = 1 - vals[l]
        return I.parity_sign(total), vals


def reduce_signs(p, guards):
    """replace sign variables decided on the path by their value"""
    rel = []            # (frozenset of variables, sign), reduced
    for key, v in guards:
        if key[0] == 'sgn':
            vs, sg = set(key[1]), 1 if v else -1
            for piv, r, s in rel:
                if piv in vs:
                    vs ^= r
                    sg *= s
            if vs:
                rel.append((min(vs), frozenset(vs), sg))
    if not rel:
        return p
    out = {}
    for m, c in p.items():
        vs = set()
        rest = []
        for f in m:
            if f[0] == SGN:
                vs ^= set(f[1:])
            else:
                rest.append(f)
        for piv, r, s in rel:
            if piv in vs:
                vs ^= r
                c = c * s
        if vs:
            rest = [(SGN,) + tuple(sorted(vs))] + rest
        k = tuple(rest)
        out[k] = out.get(k, 0) + c
    return {k: c for k, c in out.items() if c}


class CIRunner(object):
    def __init__(self, s):
        self.s = s
        self.I = s.interp()
        self.I.array_equal_hook = array_equal
        for a in ASSUME:
            if a not in s.assumptions:
                s.assumptions.append(a)

    def get(self, name):
        return self.s.lookup(self.I, 'ci_utils', name)

    def method(self, cls, name):
        c = self.get(cls)
        f = c.lookup(name) if c is not None else None
        if c is not None and f is None:
            self.s.missing.append('ci_utils.%s.%s' % (cls, name))
        return f

    def string(self, cls, n, occ, label):
        a = Arr(occ)
        a.origin = 'argument ' + label
        o = self.I.call(self.get(cls), [n, a], {})
        if isinstance(o, Obj):
            o.origin = 'argument ' + label
        return o

    def go(self, name, construct, f, call, verify, rule, alias=False, strict=True):
        loc = funcloc(self.I, f)

        def ver(res, oracle):
            if isinstance(res, Top):
                raise Unknown(res.why)
            return [m if isinstance(m, tuple) else (m, loc) for m in verify(res, oracle) or ()]
        return self.s.run(self.I, name, 'cqcpy/ci_utils.py:' + construct, call, ver, rule, loc=loc, alias=alias,
                          strict_raise=strict)

    def occ_of(self, o):
        if not isinstance(o, Obj):
            raise Unknown('not a string object')
        return self.I.to_tensor(self.I.getattr(o, 'occ'))


def array_equal(I, a, b):
    """element-wise equality of two tensors: True / False / undecided"""
    try:
        x, y = I.to_tensor(a), I.to_tensor(b)
    except Unknown:
        return None
    if x.rank != y.rank:
        return False
    if x.axes != y.axes:
        if any(T.axis_dim(p).eq(T.axis_dim(q)) is False for p, q in zip(x.axes, y.axes)):
            return False
        return None
    d = T.add(x, y, -1)
    if not d.blocks:
        return True
    for k, p in d.blocks.items():
        if set(p) == {()} and all(T.Dim.sp(x.axes[n][q]).lt(1) is False for n, q in enumerate(k)):
            return False
    return Cond(('array_equal', repr(sorted((k, poly.show(p)) for k, p in d.blocks.items()))))


def same_tensor(a, b):
    return a.axes == b.axes and a.blocks == b.blocks


# ---------------------------------------------------------------- C24: excitation of one string

EXC = 'for every order and filling of the two orbitals the result is the operator applied to the string, with its sign'
EQ = 'two strings compare equal exactly when length and occupations agree'


def c24(s):
    R = CIRunner(s)
    I = R.I
    cls = R.get('Dstring')
    if cls is None:
        return
    f = R.method('Dstring', 'excite')
    if f is None:
        return
    for order in (['i', 'a'], ['a', 'i'], ['i']):
        L = Layout('s' + ''.join(order), order)
        same = len(order) == 1
        for vi in (0, 1):
            for va in ((0, 1) if not same else (vi,)):
                vals = {'i': vi, 'a': va} if not same else {'i': vi}
                occ = L.occ(I, vals)
                rel = 'i<a' if order == ['i', 'a'] else 'i>a' if not same else 'i=a'
                obj = {}

                def call():
                    obj['o'] = R.string('Dstring', L.n, occ, 'self')
                    return I.call(I.getattr(obj['o'], 'excite'), [L.pos['i'], L.pos['i' if same else 'a']], {})
                want = L.apply(I, vals, [('c', 'i' if same else 'a'), ('a', 'i')])

                def ver(res, oracle):
                    out = []
                    if not isinstance(res, tuple) or len(res) != 2:
                        return ['the result is not a pair (sign, string)']
                    if not same_tensor(R.occ_of(obj['o']), occ):
                        out.append('the original string is changed')
                    sign, new = res
                    if want is None:
                        if new is not None:
                            out.append('a string is returned although orbital %s' %
                                       ('i is empty' if not vi else 'a is filled'))
                        return out
                    if new is None:
                        return out + ['no string is returned although i is filled and a is %s' %
                                      ('empty' if not same else 'i itself')]
                    sg, nv = want
                    w = L.occ(I, nv)
                    if not same_tensor(R.occ_of(new), w):
                        out.append('the occupations of the new string differ from the old ones with i emptied and a filled: '
                                   '%r' % (R.occ_of(new),))
                    if I.getattr(new, 'n') != L.n:
                        out.append('the new string has another length')
                    # sign of a+_a a_i acting on the string
                    got = reduce_signs(I.to_tensor(sign).scalar_poly(), oracle.guards)
                    out += compare_poly(s, got, reduce_signs(sg, oracle.guards), 'the sign')
                    return out
                R.go('excite (%s, i %s, a %s)' % (rel, 'filled' if vi else 'empty', 'filled' if va else 'empty'),
                     'Dstring.excite', f, call, ver, EXC)
    # equality
    strings_equal(R, 'Dstring')


def strings_equal(R, cname):
    s, I = R.s, R.I
    f = R.method(cname, '__eq__')
    if f is None:
        return
    L, M = Layout('eq', ['p']), Layout('eqtwo', ['p', 'q'])
    for label, a, b, want in (('equal occupations', (L, (1,)), (L, (1,)), True), ('one orbital differs', (L, (1,)), (L, (0,)), False),
                              ('one orbital differs (reversed)', (L, (0,)), (L, (1,)), False),
                              ('two orbitals interchanged', (M, (1, 0)), (M, (0, 1)), False),
                              ('another length', (L, (1,)), None, False)):
        def call():
            x = R.string(cname, a[0].n, a[0].occ(I, dict(zip('pq', a[1]))), 'self')
            if b is None:
                n = Dim.of(L.n).add(1)
                t = T.concat([L.occ(I, {'p': 1}), T.full(((ONE,),), 0, 'i')], 0)
                y = R.string(cname, n, t, 'other')
            else:
                y = R.string(cname, b[0].n, b[0].occ(I, dict(zip('pq', b[1]))), 'other')
            return I.compare('Eq', x, y)

        def ver(res, oracle):
            if isinstance(res, Cond) or not isinstance(res, bool):
                raise Unknown('comparison not decided')
            return [] if res is want else ['strings with %s compare %s' % (label, 'equal' if res else 'different')]
        R.go('%s equality (%s)' % (cname, label), cname + '.__eq__', f, call, ver, EQ)


# ---------------------------------------------------------------- C27: Slater-Condon rules

SC = 'for every class of differences and every order of the involved orbitals the element equals the Slater-Condon value'


def orders(no, nv):
    """orders of no orbitals filled in the ket only and nv filled in the bra only; equal-kind ones are increasing"""
    for c in itertools.combinations(range(no + nv), no):
        lab, o, v = [], 0, 0
        for k in range(no + nv):
            if k in c:
                o += 1
                lab.append('o%d' % o)
            else:
                v += 1
                lab.append('v%d' % v)
        yield lab


def cut(name, layouts, sym=(), kind='f'):
    """integral tensor whose axes are cut at the involved orbitals: fixed named index at those"""
    a = poly.atom(name, len(layouts), sym, kind != 'c')
    blocks = {}
    idx = []
    for n, L in enumerate(layouts):
        idx.append([n if k % 2 == 0 else named('%s:%s' % (L.tag, L.labels[k // 2])) for k in range(len(L.axis))])
    for key in itertools.product(*[range(len(L.axis)) for L in layouts]):
        blocks[key] = {((a,) + tuple(idx[n][k] for n, k in enumerate(key)),): Fraction(1)}
    return Tensor([L.axis for L in layouts], blocks, kind)


def at(t, *idx):
    """element / slice of a cut tensor: segment numbers or None"""
    for ax in range(t.rank - 1, -1, -1):
        if idx[ax] is not None:
            t = T.drop_axis(T.select(t, ax, [idx[ax]], [t.axes[ax][idx[ax]]]), ax)
    return t


class Side(object):
    """one spin: bra and ket occupations over a layout"""

    def __init__(self, R, tag, labels):
        self.L = Layout(tag, labels)
        self.ket_vals = {l: 1 if l[0] == 'o' else 0 for l in labels}
        self.bra_vals = {l: 0 if l[0] == 'o' else 1 for l in labels}
        self.ket = self.L.occ(R.I, self.ket_vals)
        self.bra = self.L.occ(R.I, self.bra_vals)
        self.nd = sum(1 for l in labels if l[0] == 'o')

    def seg(self, l):
        return self.L.seg(l)

    def sign(self, I, ops):
        return T.scalar(self.L.apply(I, self.ket_vals, ops)[0], 'i')


def mean_field(I, A, h, Ia):
    """one-electron and same-spin two-electron part of a single difference"""
    v, o = A.seg('v1'), A.seg('o1')
    # remaining electrons: those common to bra and ket
    rest = A.L.occ(I, {l: 0 for l in A.L.labels})
    r = at(h, v, o)
    r = T.add(r, T.einsum('ii,i->', [at(Ia, v, None, o, None), rest]))
    return T.add(r, T.einsum('ii,i->', [at(Ia, v, None, None, o), rest]), -1)


def energy(p, h, I_):
    r = T.einsum('ii,i->', [h, p])
    r = T.add(r, T.scale(T.einsum('ijij,i,j->', [I_, p, p]), Fraction(1, 2)))
    return T.add(r, T.scale(T.einsum('ijji,i,j->', [I_, p, p]), Fraction(1, 2)), -1)


def sc_spec(I, A, ha, Ia, B=None, hb=None, Ib=None, Iab=None, const=None):
    """Slater-Condon element (scalar tensor)"""
    na, nb = A.nd, B.nd if B is not None else 0
    if na + nb > 2:
        return T.const(0)
    if na == nb == 0:
        r = energy(A.ket, ha, Ia)
        if B is not None:
            r = T.add(r, energy(B.ket, hb, Ib))
            r = T.add(r, T.einsum('ijij,i,j->', [Iab, A.ket, B.ket]))
        return T.add(r, const)
    if (na, nb) == (1, 0):
        r = mean_field(I, A, ha, Ia)
        if B is not None:
            r = T.add(r, T.einsum('ii,i->', [at(Iab, A.seg('v1'), None, A.seg('o1'), None), B.ket]))
        return T.mul(A.sign(I, [('c', 'v1'), ('a', 'o1')]), r)
    if (na, nb) == (0, 1):
        r = mean_field(I, B, hb, Ib)
        r = T.add(r, T.einsum('ii,i->', [at(Iab, None, B.seg('v1'), None, B.seg('o1')), A.ket]))
        return T.mul(B.sign(I, [('c', 'v1'), ('a', 'o1')]), r)
    if (na, nb) == (1, 1):
        r = at(Iab, A.seg('v1'), B.seg('v1'), A.seg('o1'), B.seg('o1'))
        return T.mul(T.mul(A.sign(I, [('c', 'v1'), ('a', 'o1')]), B.sign(I, [('c', 'v1'), ('a', 'o1')])), r)
    X, J = (A, Ia) if na else (B, Ib)
    v1, v2, o1, o2 = (X.seg(l) for l in ('v1', 'v2', 'o1', 'o2'))
    r = T.add(at(J, v1, v2, o1, o2), at(J, v1, v2, o2, o1), -1)
    return T.mul(X.sign(I, [('c', 'v1'), ('c', 'v2'), ('a', 'o2'), ('a', 'o1')]), r)


def argarr(t, label):
    a = Arr(t)
    a.origin = 'argument ' + label
    return a


def c27(s, kind='f', only=None):
    R = CIRunner(s)
    I = R.I
    K = '' if kind == 'f' else 'c'
    const = T.sym_scalar('const', 'f')
    f = R.get('gci_matrixel')
    if f is not None:
        for nd in range(5):
            for lab in (list(orders(nd, nd)) if nd < 3 else [next(iter(orders(nd, nd)))]):
                A = Side(R, 'x' + ''.join(lab), lab)
                h = cut('h' + K, [A.L] * 2, kind=kind)
                V = cut('V' + K, [A.L] * 4, PAIR4, kind) if nd < 3 else T.zeros([A.L.axis] * 4, kind)

                def call():
                    return I.call(f, [R.string('Dstring', A.L.n, A.bra, 'bra'), R.string('Dstring', A.L.n, A.ket, 'ket'),
                                      argarr(h, 'h'), argarr(V, 'I'), const], {})
                want = sc_spec(I, A, h, V, const=const)
                R.go('gci_matrixel (%d differences%s)' % (nd, ': ' + '<'.join(lab) if 0 < nd < 3 else ''), 'gci_matrixel', f,
                     call, lambda res, oracle: element(R, res, want, oracle), SC)
    f = R.get('ci_matrixel')
    if f is None:
        return
    for na in range(4):
        for nb in range(4 if na else 4):
            if na + nb > 4:
                continue
            small = na + nb <= 2
            la = list(orders(na, na)) if small else [next(iter(orders(na, na)))]
            lb = list(orders(nb, nb)) if small else [next(iter(orders(nb, nb)))]
            for x in la:
                for y in lb:
                    A, B = Side(R, 'a' + ''.join(x), x), Side(R, 'b' + ''.join(y), y)
                    ha, hb = cut('ha' + K, [A.L] * 2, kind=kind), cut('hb' + K, [B.L] * 2, kind=kind)
                    Z = not small
                    Va = cut('Va' + K, [A.L] * 4, PAIR4, kind) if not Z else T.zeros([A.L.axis] * 4, kind)
                    Vb = cut('Vb' + K, [B.L] * 4, PAIR4, kind) if not Z else T.zeros([B.L.axis] * 4, kind)
                    Vab = cut('Vab' + K, [A.L, B.L, A.L, B.L], (), kind) if not Z else \
                        T.zeros([A.L.axis, B.L.axis] * 2, kind)

                    def call():
                        return I.call(f, [R.string('Dstring', A.L.n, A.bra, 'braa'), R.string('Dstring', B.L.n, B.bra, 'brab'),
                                          R.string('Dstring', A.L.n, A.ket, 'keta'), R.string('Dstring', B.L.n, B.ket, 'ketb'),
                                          argarr(ha, 'ha'), argarr(hb, 'hb'), argarr(Va, 'Ia'), argarr(Vb, 'Ib'),
                                          argarr(Vab, 'Iabab'), const], {})
                    want = sc_spec(I, A, ha, Va, B, hb, Vb, Vab, const)
                    lab = ' '.join(t for t in ('<'.join(x) and 'alpha ' + '<'.join(x), '<'.join(y) and 'beta ' + '<'.join(y)) if t)
                    R.go('ci_matrixel (%d alpha, %d beta differences%s)' % (na, nb, ': ' + lab if small and lab else ''),
                         'ci_matrixel', f, call, lambda res, oracle: element(R, res, want, oracle), SC)


def element(R, res, want, oracle):
    got = R.I.to_tensor(res)
    if got.rank:
        return ['the element is an array of rank %d' % got.rank]
    p = reduce_signs(got.scalar_poly(), oracle.guards)
    w = reduce_signs(want.scalar_poly(), oracle.guards)
    return compare_poly(R.s, p, w, 'the matrix element')


# ---------------------------------------------------------------- C25: generators of excited strings

GEN = 'every configuration of moved electrons is produced by exactly one assignment of the loop variables, and nothing else is'


def check_list(R, res, axes, levels, what, oracle, samples=(), first=None):
    """res: list of strings (or tuples of strings, one per axis); levels: allowed excitation numbers per axis.

    Decided for all sizes by counting canonical configurations; when the loops depend on more than the order of the
    orbitals, sizes of samples (spaces -> numbers, bits) may still refute the property."""
    I = R.I
    if not isinstance(res, PList):
        return ['%s is not a list' % what]
    entries = []
    none = []
    for e in res.entries:
        if e.value is None:
            none.append(e)
            continue
        objs = cs.value_strings(e.value)
        if any(isinstance(o, Top) for o in objs):
            if repeated(I, e, objs, oracle, samples):
                return ['an element of %s does not depend on the loop that lists it and is repeated' % what]
            raise Unknown([o.why for o in objs if isinstance(o, Top)][0])
        if len(objs) != len(axes):
            return ['an element of %s is not %s' % (what, 'a string' if len(axes) == 1 else 'a tuple of %d strings' % len(axes))]
        if any(o is None for o in objs):
            none.append(e)
            continue
        mvs = [cs.moved_of(I, o) for o in objs]
        if any(m is None for m in mvs):
            raise Unknown('element of %s' % what)
        for m, ax in zip(mvs, axes):
            r = ax.is_reference(I, m.base, empty_spaces(oracle.guards))
            if r is False:
                return ['an element of %s is not derived from the reference occupation' % what]
            if r is None:
                raise Unknown('reference occupation')
        entries.append((e, mvs))
    if first is not None:
        e, mvs = entries[0] if entries else (None, None)
        if e is None or e.binders or e.guards or any(m.holes for m in mvs):
            return ['%s does not start with the reference' % what]
    try:
        if none:
            raise Unknown('an element may be None')
        out = count_all(R, entries, axes, levels, what)
        if out and oracle.guards and not shown(oracle, entries, axes, levels):
            raise Unknown('a difference that no small sizes with the conditions of the path show')
        return out
    except Unknown:
        for env, bits in samples:
            if not consistent(oracle, env):
                continue
            try:
                r = cs.refute(entries, [ax.numeric(env, bits) for ax in axes], levels, env, bits, none)
            except (cs.TooMany, Unknown):
                continue
            if r:
                return ['%s %s' % (what, r)]
        raise


def shown(oracle, entries, axes, levels):
    """is a difference present at some sizes that satisfy the conditions of the path

    True as well when the conditions are not about sizes alone or are not met by any small sizes."""
    spaces = sorted({x for ax in axes for _, ln in ax.runs or () for x in Dim.of(ln).t})
    if not spaces or any(ax.runs is None for ax in axes):
        return True
    tried = 0
    for x in sorted(itertools.product(range(7), repeat=len(spaces)), key=lambda x: (sum(x), x)):
        env = dict(zip(spaces, x))
        if tried >= 60 or sum(x) > 11:
            break
        if not consistent(oracle, env):
            continue
        refs = [ax.numeric(env, {}) for ax in axes]
        if not any(all(min(sum(r), len(r) - sum(r)) >= k for r, k in zip(refs, lv)) for lv in levels if any(lv)):
            continue
        try:
            if cs.refute(entries, refs, levels, env, {}):
                return True
        except (cs.TooMany, Unknown):
            return True
        tried += 1
    return not tried


def repeated(I, e, objs, oracle, samples):
    """is an element with unknown components listed more than once at the sizes of one of the samples"""
    if not e.binders:
        return False
    for o in objs:
        if isinstance(o, Top):
            if not o.fixed:
                return False
            continue
        m = cs.moved_of(I, o)
        if m is None or any(s < 0 for d in m.holes + m.parts for s in d.t):
            return False
    for env, bits in samples:
        try:
            if consistent(oracle, env) and len(list(itertools.islice(cs.instances(e, env, bits), 2))) == 2:
                return True
        except (cs.TooMany, Unknown):
            continue
    return False


def consistent(oracle, env):
    """do the sizes satisfy the conditions decided on the path"""
    for key, val in oracle.guards:
        if key[0] not in ('pos', 'zero'):
            return False
        d = Dim(dict(key[1][0]), key[1][1])
        if any(x not in env for x in d.t):
            return False
        v = d.c + sum(c * env[x] for x, c in d.t.items())
        if (v > 0 if key[0] == 'pos' else v == 0) != val:
            return False
    return True


def count_all(R, entries, axes, levels, what):
    out = []
    have = {tuple(len(m.holes) for m in mvs) for e, mvs in entries}
    for lv in sorted(have | set(levels)):
        want = 1 if lv in levels else 0
        for conf in itertools.product(*[list(ax.configs(k)) for ax, k in zip(axes, lv)]):
            w = cs.World()
            for ax, c in zip(axes, conf):
                w.add(ax, c, 'w' + ax.tag)
            n, unsure = cs.count(R.I, entries, w, axes)
            R.s.counts['configurations'] = R.s.counts.get('configurations', 0) + 1
            if n > want or n < want and not unsure:
                out.append('%s holds the strings with %s %s instead of %s (orbital order%s)'
                           % (what, level_text(lv), cs.times(n), cs.times(want), w.label))
                break
            if unsure:
                raise Unknown('a loop condition depends on more than the order of the orbitals')
    return out


def level_text(lv):
    if len(lv) == 1:
        return '%d moved electron%s' % (lv[0], '' if lv[0] == 1 else 's')
    return '%s moved electrons' % ' + '.join('%d %s' % (k, t) for k, t in zip(lv, ('alpha', 'beta')))


class RefAxis(cs.Axis):
    """axis with its reference occupations"""
    ref = None              # Tensor
    atom = None             # its occupation symbol
    other = None            # Tensor of another reference

    def numeric(self, env, bits):
        if self.runs is None:
            return tuple(bits[self.atom])
        occ = []
        for kind, ln in self.runs:
            ln = Dim.of(ln)
            occ += [1 if kind == 'o' else 0] * (ln.c + sum(c * env[x] for x, c in ln.t.items()))
        return tuple(occ)

    def as_list(self, I):
        l = PList()
        off = Dim()
        l.entries = []
        for k, (kind, ln) in enumerate(self.runs):
            v = named('occ%d' % k)
            hi = off.add(ln)
            l.entries.append(Entry(1 if kind == 'o' else 0, [Binder(v, off, hi)], []))
            off = hi
        l.origin = 'argument occ'
        return l

    def is_reference(self, I, arr, empty=()):
        t = arr.read() if isinstance(arr, Arr) else arr
        if not isinstance(t, Tensor) or t.rank != 1:
            return None
        if self.runs is None:
            return same_tensor(t, self.ref) or (False if self.other is not None and same_tensor(t, self.other) else None)
        # constants on consecutive segments: compare boundaries
        segs = []
        for k, sp in enumerate(t.axes[0]):
            p = t.blocks.get((k,), {})
            if set(p) - {()}:
                return None
            v = p.get((), 0)
            if v not in (0, 1):
                return False
            segs.append((v, Dim.sp(sp)))
        want = [(1 if kind == 'o' else 0, Dim.of(ln)) for kind, ln in self.runs]
        if empty:
            segs, want = [[(v, Dim({x: c for x, c in d.t.items() if x not in empty}, d.c)) for v, d in l] for l in (segs, want)]
        return same_runs(segs, want)


def merge_runs(l):
    out = []
    for v, d in l:
        if not d.t and d.c == 0:
            continue
        if out and out[-1][0] == v:
            out[-1] = (v, out[-1][1].add(d))
        else:
            out.append((v, d))
    return out


def same_runs(a, b):
    a, b = merge_runs(a), merge_runs(b)
    if len(a) == len(b) and all(x[0] == y[0] and x[1] == y[1] for x, y in zip(a, b)):
        return True
    if len(a) != len(b) or any(x[0] != y[0] for x, y in zip(a, b)):
        return False
    return False if all(x[1] == y[1] or x[1].eq(y[1]) is False or x[1] != y[1] for x, y in zip(a, b)) else None


def c25(s):
    R = CIRunner(s)
    I = R.I
    cls = R.get('Dstring')
    if cls is None:
        return
    cs.install_excite(I, cls)
    cs.install_writes(I)
    o, v, n = Dim.sp(space('so')), Dim.sp(space('sv')), Dim.sp(space('sn'))
    for name, k in (('s_strings', 1), ('d_strings', 2), ('t_strings', 3), ('q_strings', 4)):
        f = R.get(name)
        if f is None:
            continue
        ax = RefAxis('', [('o', o), ('v', v)])
        so, sv, sn = space('so'), space('sv'), space('sn')
        samples = [({so: x, sv: y}, {}) for x, y in ((k, k), (k + 1, k), (k, k + 1), (k + 2, k + 2), (k - 1, k))]
        R.go('%s (default reference)' % name, name, f, lambda: I.call(f, [o.add(v), o], {}),
             lambda res, oracle: check_list(R, res, [ax], [(k,)], 'the list', oracle, samples), GEN)
        bit = poly.atom('n:ref', 1, real=True)
        I.bit_atoms.add(bit)
        poly.BITS.add(bit)
        ref = Tensor(((sn,),), {(0,): {((bit, 0),): Fraction(1)}}, 'i')
        ax2 = RefAxis('', None, n)
        ax2.ref, ax2.atom = ref, bit
        samples2 = [({sn: len(p), space('nelec'): sum(p)}, {bit: p})
                    for p in ([1, 0] * k, [0, 1] * k, [0] * k + [1] * k, [0, 1, 1, 0, 1, 0, 0, 1, 1, 0][:2 * k + 2])]

        bit2 = poly.atom('n:ref2', 1, real=True)
        I.bit_atoms.add(bit2)
        poly.BITS.add(bit2)
        ax2.other = Tensor(((sn,),), {(0,): {((bit2, 0),): Fraction(1)}}, 'i')

        def call(as_list, twice=False):
            if twice:
                I.call(f, [n, Dim.sp(space('nelec'))], {'occ': argarr(ax2.other, 'occ')})
            a = argarr(ref, 'occ')
            if as_list:
                a = PList()
                a.entries = [Entry(T.scalar({((bit, named('q')),): Fraction(1)}, 'i'), [Binder(named('q'), Dim(), n)], [])]
                a.origin = 'argument occ'
            return I.call(f, [n, Dim.sp(space('nelec'))], {'occ': a})
        R.go('%s (given reference, after a call with another one)' % name, name, f, lambda: call(False, True),
             lambda res, oracle: check_list(R, res, [ax2], [(k,)], 'the list', oracle, samples2), GEN)
        for as_list in (False, True):
            R.go('%s (given reference, %s)' % (name, 'list' if as_list else 'array'), name, f, lambda: call(as_list),
                 lambda res, oracle: check_list(R, res, [ax2], [(k,)], 'the list', oracle, samples2), GEN)


# ---------------------------------------------------------------- C26: CI bases

BASIS = 'every determinant up to the level is produced by exactly one assignment of the loop variables, the reference first'
LEVELS = {'cis': 1, 'cisd': 2, 'cisdt': 3, 'cisdtq': 4}


def u_cases():
    """alpha/beta electron counts: the smaller, the difference and the remaining orbitals are free"""
    b, d, v = space('bmin'), space('bdif'), space('bvir')
    lo, hi, n = Dim.sp(b), Dim({b: 1, d: 1}), Dim({b: 1, d: 1, v: 1})
    for label, na, nb in (('na >= nb', hi, lo), ('na <= nb', lo, hi)):
        axes = [RefAxis('a', [('o', na), ('v', n.add(na, -1))]), RefAxis('b', [('o', nb), ('v', n.add(nb, -1))])]
        yield label, n, na, nb, axes, [({b: x, d: y, v: z}, {}) for x, y, z in
                                       ((1, 0, 1), (1, 1, 1), (2, 0, 2), (2, 1, 2), (3, 0, 3), (4, 0, 4), (1, 0, 3))]


def g_cases():
    k, v = space('gk'), space('gv')
    K, V = Dim.sp(k), Dim.sp(v)
    for label, n, m, runs in (('even', K.mul(2), K.add(V), [('o', K), ('v', V), ('o', K), ('v', V)]),
                              ('odd', K.mul(2).add(1), K.add(V).add(1),
                               [('o', K.add(1)), ('v', V), ('o', K), ('v', V.add(1))])):
        yield label, m.mul(2), n, [RefAxis('', runs)], [({k: x, v: y}, {}) for x, y in ((1, 1), (2, 2), (0, 1), (2, 1), (1, 2))]


def c26(s):
    R = CIRunner(s)
    I = R.I
    cls = R.get('Dstring')
    if cls is None:
        return
    cs.install_excite(I, cls)
    cs.install_writes(I)
    for name, top in LEVELS.items():
        f = R.get('u%s_basis' % name)
        if f is not None:
            for label, n, na, nb, axes, samples in u_cases():
                for gs in ((True, False, None) if top == 1 else (None,)):
                    lv = [(x, y) for x in range(top + 1) for y in range(top + 1) if x + y <= top and (gs is not False or x + y)]
                    R.go('u%s_basis (%s%s)' % (name, label, '' if gs is None else ', gs=%s' % gs), 'u%s_basis' % name, f,
                         lambda: I.call(f, [n, na, nb], {} if gs is None else {'gs': gs}),
                         lambda res, oracle: check_list(R, res, axes, lv, 'the basis', oracle, samples,
                                                        True if gs is not False else None), BASIS)
        f = R.get('g%s_basis' % name)
        if f is not None:
            for label, nmo, n, axes, samples in g_cases():
                for gs in ((True, False, None) if top == 1 else (None,)):
                    lv = [(x,) for x in range(top + 1) if gs is not False or x]
                    R.go('g%s_basis (%s electron number%s)' % (name, label, '' if gs is None else ', gs=%s' % gs),
                         'g%s_basis' % name, f, lambda: I.call(f, [nmo, n], {} if gs is None else {'gs': gs}),
                         lambda res, oracle: check_list(R, res, axes, lv, 'the basis', oracle, samples,
                                                        True if gs is not False else None), BASIS)


# ---------------------------------------------------------------- C33: boson strings

LADDER = 'for every mode and occupation the new string has one quantum more (less) in that mode and is otherwise the same'
QUANTA = 'every string with the given number of quanta is produced by exactly one assignment of the loop variables'


def quanta_layout(I, vals):
    """boson occupations: unknown numbers of quanta outside the mode"""
    L = Layout('bos', ['p'])
    a = poly.atom('quanta', 1, real=True)
    blocks = {(0,): {((a, 0),): Fraction(1)}, (2,): {((a, 0),): Fraction(1)}}
    if vals:
        blocks[(1,)] = vals
    return L, Tensor((L.axis,), blocks, 'i')


def c33(s):
    R = CIRunner(s)
    I = R.I
    cls = R.get('Pstring')
    if cls is None:
        return
    nq = I.dim_tensor(Dim.sp(space('nquanta'))).scalar_poly()
    cases = (('no quanta', {}), ('one quantum', poly.pconst(1)), ('more quanta', poly.padd(nq, poly.pconst(1))))
    for name, step in (('raize', 1), ('lower', -1)):
        f = R.method('Pstring', name)
        if f is None:
            continue
        for label, val in cases:
            L, occ = quanta_layout(I, val)
            obj = {}

            def call():
                obj['o'] = R.string('Pstring', L.n, occ, 'self')
                return I.call(I.getattr(obj['o'], name), [L.pos['p']], {})

            def ver(res, oracle):
                out = []
                if not same_tensor(R.occ_of(obj['o']), occ):
                    out.append('the original string is changed')
                if step < 0 and not val:
                    return out + (['a string is returned although the mode is empty'] if res is not None else [])
                if res is None:
                    return out + ['no string is returned although the mode holds quanta' if step < 0
                                  else 'no string is returned']
                w = quanta_layout(I, poly.padd(val, poly.pconst(step)))[1]
                if not same_tensor(R.occ_of(res), w):
                    out.append('the new occupations are not the old ones with one quantum %s in the mode'
                               % ('more' if step > 0 else 'less'))
                if I.getattr(res, 'n') != L.n:
                    out.append('the new string has another number of modes')
                return out
            R.go('%s (%s)' % (name, label), 'Pstring.' + name, f, call, ver, LADDER)
    strings_equal(R, 'Pstring')
    cs.install_raize(I, cls)
    n = Dim.sp(space('nmode'))
    for name, levels, first in (('s_pstrings', (1,), None), ('d_pstrings', (2,), None), ('vcis_basis', (0, 1), True),
                                ('vcisd_basis', (0, 1, 2), True)):
        f = R.get(name)
        if f is not None:
            R.go(name, name, f, lambda: I.call(f, [n], {}), lambda res, oracle: check_quanta(R, res, n, levels, first), QUANTA)


def check_quanta(R, res, n, levels, first):
    I = R.I
    if not isinstance(res, PList):
        return ['the result is not a list']
    entries = []
    for e in res.entries:
        if isinstance(e.value, Top):
            raise Unknown(e.value.why)
        if e.value is None:
            raise Unknown('an element may be None')
        m = cs.moved_of(I, e.value)
        if m is None:
            raise Unknown('element')
        t = m.base.read()
        if not isinstance(t, Tensor) or t.rank != 1:
            raise Unknown('vacuum')
        if t.blocks or T.axis_dim(t.axes[0]) != n:
            return ['an element is not built from the vacuum of all modes']
        entries.append((e, [m]))
    if first:
        if not entries or entries[0][0].binders or entries[0][1][0].parts:
            return ['the basis does not start with the vacuum']
    try:
        return count_quanta(R, entries, n, levels)
    except Unknown:
        for k in (1, 2, 3):
            try:
                r = cs.refute_quanta(entries, k, levels, {next(iter(n.t)): k})
            except (cs.TooMany, Unknown):
                continue
            if r:
                return ['the list ' + r]
        raise


def count_quanta(R, entries, n, levels):
    I = R.I
    out = []
    have = {len(ms[0].parts) for e, ms in entries}
    for lv in sorted(have | set(levels)):
        want = 1 if lv in levels else 0
        # numbers of quanta in distinct modes, in the order of the modes
        for conf in quanta(lv):
            w = cs.World()
            off = Dim.sp(space('q.g0'))
            pos = []
            for k, q in enumerate(conf):
                pos += [off] * q
                off = off.add(1).add(Dim.sp(space('q.g%d' % (k + 1))))
            w.relate(n, off)
            w.holes, w.parts = [[]], [pos]
            c, unsure = cs.count(I, entries, w, None)
            R.s.counts['configurations'] = R.s.counts.get('configurations', 0) + 1
            if unsure:
                raise Unknown('a loop condition depends on more than the order of the modes')
            if c != want:
                out.append('the strings with %s quanta in increasing modes occur %s instead of %s'
                           % (' and '.join(map(str, conf)) or 'no', cs.times(c), cs.times(want)))
    return out


def quanta(k):
    if k == 0:
        yield ()
    for x in range(1, k + 1):
        for r in quanta(k - x):
            yield (x,) + r


# ---------------------------------------------------------------- C29: CI coefficients from amplitudes

EXPT = 'for every determinant the collected contributions equal the coefficient in exp(T1+T2) applied to the reference'


def vector_zeros(I, shape, dtype=None, order=None, **kw):
    """numpy.zeros: arrays as long as a determinant list become CI vectors"""
    from . import npmodel
    d = shape
    if isinstance(d, (tuple, PList)) and len(d if isinstance(d, tuple) else d.values()) == 1:
        d = (d if isinstance(d, tuple) else d.values())[0]
    if isinstance(d, Dim) and len(d.t) == 1 and d.c == 0 and next(iter(d.t)) in getattr(I, 'list_spaces', {}):
        k = npmodel.to_dtype(I, dtype).kind
        return Arr(cs.Vec(d, k), depth=I.depth)
    return npmodel.np_zeros(I, shape, dtype)


def vector_zeros_like(I, a, dtype=None, **kw):
    from . import npmodel
    if isinstance(a, Arr):
        t = a.read()
        ax = t.axes if isinstance(t, Tensor) else ()
        if len(ax) == 1 and len(ax[0]) == 1 and ax[0][0] in getattr(I, 'list_spaces', {}):
            k = npmodel.to_dtype(I, dtype).kind if dtype is not None else t.kind
            return Arr(cs.Vec(Dim.sp(ax[0][0]), k), depth=I.depth)
        if isinstance(t, cs.Vec):
            return Arr(cs.Vec(t.size, t.kind), depth=I.depth)
    return npmodel.np_zeros_like(I, a, dtype)


def perm_sign(seq):
    s = 1
    seq = list(seq)
    for i in range(len(seq)):
        for j in range(i):
            if seq[j] > seq[i]:
                s = -s
    return s


def exp_spec(profile, amp):
    """coefficient polynomial of the configuration with profile[s] electrons moved in spin s.

    amp(kind, indices) gives the monomial factor; indices are labels (spin, 'h'/'p', number)."""
    holes = [(sp, k) for sp, n in enumerate(profile) for k in range(n)]
    parts = [(sp, k) for sp, n in enumerate(profile) for k in range(n)]
    out = {}

    def rec(hs, ps, blocks):
        if not hs:
            sg = 1
            for sp in range(len(profile)):
                h = [k for b in blocks for (s_, k) in b[0] if s_ == sp]
                p = [k for b in blocks for (s_, k) in b[1] if s_ == sp]
                sg *= perm_sign(h) * perm_sign(p)
            m = tuple(sorted(amp(b[0], b[1]) for b in blocks))
            out[m] = out.get(m, 0) + sg
            return
        i = hs[0]
        for a in ps:
            if a[0] == i[0]:
                rec(hs[1:], [x for x in ps if x != a], blocks + [((i,), (a,))])
        for j in hs[1:]:
            rest = [x for x in hs[1:] if x != j]
            for a in ps:
                for b in ps:
                    if a == b or a[0] != i[0] or b[0] != j[0] or i[0] == j[0] and b < a:
                        continue
                    rec(rest, [x for x in ps if x not in (a, b)], blocks + [((i, j), (a, b))])
    rec(holes, parts, [])
    return {m: Fraction(c) for m, c in out.items() if c}


class ExpCheck(object):
    def __init__(self, R, axes, amps, order, kinds):
        self.R, self.I, self.axes, self.order = R, R.I, axes, order
        self.amps = amps            # name -> (spins of the electrons)
        self.atoms = {a.atom: (n, a) for n, a in kinds.items()}

    def label(self, world, form, which):
        """orbital of the configuration an amplitude index refers to: (spin, number)"""
        out = []
        for sp, ranks in enumerate(world.rank_h if which == 'h' else world.rank_p):
            for k, r in enumerate(ranks):
                z = world.zero(form.add(r, -1))
                if z is True:
                    out.append((sp, k))
        return out

    def amp_factor(self, name, ps, hs):
        """canonical factor of an amplitude: (sign, key)"""
        sg = 1
        if len(hs) == 2 and hs[0][0] == hs[1][0]:
            sg = perm_sign(hs) * perm_sign(ps)
            hs, ps = tuple(sorted(hs)), tuple(sorted(ps))
            if hs[0] == hs[1] or ps[0] == ps[1]:
                return 0, None
        return sg, (name, tuple(ps), tuple(hs))

    def spec_amp(self, hs, ps):
        spins = tuple(h[0] for h in hs)
        if len(spins) == 2 and spins == (1, 0):
            hs, ps, spins = hs[::-1], ps[::-1], (0, 1)
        name = [n for n, sp in self.amps.items() if sp == spins][0]
        return self.amp_factor(name, ps, hs)[1]

    def value(self, t, env, world, mvs):
        """contribution of one write in a configuration: polynomial over canonical factors"""
        I = self.I
        out = {}

        def sub(d):
            for s, c in list(d.t.items()):
                if s < 0:
                    if s not in env:
                        raise Unknown('index not tied to the determinant')
                    d = d.add(Dim({s: 1}), -c).add(env[s].mul(c))
            return d
        for m, c in t.scalar_poly().items():
            keys, sg, signs = [], 1, set()
            for f in m:
                if f[0] == SGN:
                    signs ^= set(f[1:])
                elif f[0] in self.atoms:
                    name, a = self.atoms[f[0]]
                    forms = [sub(I.form_table[x]) for x in f[1:]]
                    h = a.rank // 2
                    spins = self.amps[name]
                    ps, hs = [], []
                    for n, d in enumerate(forms):
                        lab = [x for x in self.label(world, d, 'p' if n < h else 'h') if x[0] == spins[n % h]]
                        if not lab:
                            keys.append(('other', name, n, repr(d)))
                            lab = [(-1, n)]
                        (ps if n < h else hs).append(lab[0])
                    if any(x[0] < 0 for x in ps + hs):
                        continue
                    x, k = self.amp_factor(name, tuple(ps), tuple(hs))
                    sg *= x
                    keys.append(k)
                else:
                    keys.append(('factor', poly.show({(f,): 1})))
            for x in signs:
                if x not in I.seq_table:
                    keys.append(('sign', x))
                    continue
                base, seq = I.seq_table[x]
                ax = [n for n, mv in enumerate(mvs) if mv.base is base]
                if not ax:
                    raise Unknown('sign of another string')
                ax = ax[0]
                hs = [self.find(world.holes[ax], sub(i)) for i, a in seq]
                ps = [self.find(world.parts[ax], sub(a)) for i, a in seq]
                sg *= perm_sign(hs) * perm_sign(ps)
                k = ('phase', ax, tuple(sorted(hs)), tuple(sorted(ps)))
                if k in keys:
                    keys.remove(k)
                else:
                    keys.append(k)
            if not sg:
                continue
            full = [('phase', n, tuple(range(len(h))), tuple(range(len(h)))) for n, h in enumerate(world.holes) if h]
            for k in full:
                if k in keys:
                    keys.remove(k)
                else:
                    keys.append(k)
            k = tuple(sorted(keys, key=repr))
            out[k] = out.get(k, 0) + c * sg
        return out

    def find(self, positions, form):
        for k, p in enumerate(positions):
            if self.world.zero(form.add(p, -1)) is True:
                return k
        raise Unknown('excited orbital')

    def run(self, res, oracle, samples):
        I = self.I
        c = res.read() if isinstance(res, Arr) else None
        if isinstance(c, Top):
            raise Unknown(c.why)
        if not isinstance(c, cs.Vec):
            raise Unknown('the result is not a vector over a determinant list')
        lst = I.list_spaces[next(iter(c.size.t))]
        profiles = [p for p in itertools.product(range(self.order + 1), repeat=len(self.axes)) if sum(p) <= self.order]
        out = check_list(self.R, lst, self.axes, profiles, 'the basis', oracle, samples, True)
        if out:
            return out
        ref, terms = {}, []
        for bs, gs, idx, op, t, loc in c.writes:
            if isinstance(idx, int) and idx == 0 and not bs and not gs:
                v = t.scalar_poly()
                ref = v if op == '=' else poly.padd(ref, v)
                continue
            if not isinstance(idx, IndexOf) or idx.off:
                raise Unknown('write to the vector')
            if idx.lst is not lst:
                raise Unknown('position in another list')
            objs = cs.value_strings(idx.value)
            mvs = [cs.moved_of(I, o) for o in objs]
            if any(m is None for m in mvs) or len(mvs) != len(self.axes):
                raise Unknown('determinant')
            if not bs and not gs and not any(m.seq for m in mvs):
                v = t.scalar_poly()
                ref = v if op == '=' else poly.padd(ref, v)
                continue
            if op != '+=':
                raise Unknown('write to the vector')
            for m, ax in zip(mvs, self.axes):
                r = ax.is_reference(I, m.base)
                if r is None:
                    raise Unknown('reference occupation')
                if r is False:
                    return [('a determinant is not derived from the reference of the basis', loc)]
            terms.append((Entry(None, bs, gs), mvs, t, loc))
        if ref != poly.pconst(1):
            out.append('the coefficient of the reference is %s' % poly.show(ref))
        for pr in sorted({tuple(len(m.holes) for m in mvs) for e, mvs, t, loc in terms} | set(profiles)):
            if not sum(pr):
                if any(not any(m.holes for m in mvs) for e, mvs, t, loc in terms):
                    raise Unknown('contribution to the reference')
                continue
            if pr not in profiles:
                return ['determinants beyond the requested level are addressed']
            spec = exp_spec(pr, lambda hs, ps: self.spec_amp(hs, ps))
            for conf in itertools.product(*[list(ax.configs(k)) for ax, k in zip(self.axes, pr)]):
                w = self.world = cs.World()
                for ax, cf in zip(self.axes, conf):
                    w.add(ax, cf, 'w' + ax.tag)
                got = {}
                for e, mvs, t, loc in terms:
                    sols, unsure = cs.solutions(e, mvs, w)
                    if unsure:
                        raise Unknown('a loop condition depends on more than the order of the orbitals')
                    for env in sols:
                        for k, x in self.value(t, env, w, mvs).items():
                            got[k] = got.get(k, 0) + x
                want = {tuple(sorted(m, key=repr)): x for m, x in spec.items()}
                self.R.s.counts['configurations'] = self.R.s.counts.get('configurations', 0) + 1
                self.R.s.terms += len(want)
                diff = {k: (got.get(k, 0), want.get(k, 0)) for k in set(got) | set(want)
                        if abs(got.get(k, 0) - want.get(k, 0)) > Fraction(1, 10 ** 11)}
                if diff:
                    k = sorted(diff, key=repr)[0]
                    out.append('coefficient of the determinants with %s: %s has weight %s instead of %s%s'
                               % (level_text(pr), show_amps(k), float(diff[k][0]), float(diff[k][1]),
                                  ' (and %d more terms)' % (len(diff) - 1) if len(diff) > 1 else ''))
                    break
        return out


def show_amps(k):
    out = []
    for x in k:
        if x[0] == 'phase':
            out.append('(an unmatched sign)')
        elif len(x) == 3:
            out.append('%s[%s]' % (x[0], ','.join('%s%d' % (c, n + 1) for c, l in (('p', x[1]), ('h', x[2])) for _, n in l)))
        else:
            out.append(str(x))
    return ' '.join(out)


def c29(s, kind='f', orders=(1, 2, 3, 4, None)):
    R = CIRunner(s)
    I = R.I
    cls = R.get('Dstring')
    if cls is None:
        return
    cs.install_excite(I, cls)
    cs.install_writes(I)
    I.ext['numpy.zeros'] = vector_zeros
    I.ext['numpy.zeros_like'] = vector_zeros_like
    I.index_hook = lambda I, l, x: IndexOf(l, x) if isinstance(l, PList) else NotImplemented
    K = '' if kind == 'f' else 'c'
    f = R.get('makeCfromT')
    amps = {'T1a': (0,), 'T1b': (1,), 'T2aa': (0, 0), 'T2ab': (0, 1), 'T2bb': (1, 1)}
    A = {n: cs.Amp(n + K, 2 * len(sp), kind) for n, sp in amps.items()}
    for order in orders:
        if f is None:
            break
        for label, n, na, nb, axes, samples in u_cases():
            def call():
                args = [na, n.add(na, -1).simp(), nb, n.add(nb, -1).simp()]
                for nm in amps:
                    a = Arr(A[nm])
                    a.origin = 'argument ' + nm
                    args.append(a)
                return I.call(f, args, {} if order is None else {'order': order})
            E = ExpCheck(R, axes, amps, order or 2, A)
            R.go('makeCfromT (%s, %s)' % ('default order' if order is None else 'order %d' % order, label), 'makeCfromT', f, call,
                 lambda res, oracle: E.run(res, oracle, samples), EXPT)
    f = R.get('gmakeCfromT')
    amps2 = {'T1': (0,), 'T2': (0, 0)}
    B = {n: cs.Amp(n + K, 2 * len(sp), kind) for n, sp in amps2.items()}
    for order in orders:
        if f is None:
            break
        for label, nmo, n, axes, samples in g_cases():
            for given in (False, True):
                if given and order in (3, 4):
                    continue

                def call():
                    args = [n, nmo.add(n, -1)]
                    for nm in amps2:
                        a = Arr(B[nm])
                        a.origin = 'argument ' + nm
                        args.append(a)
                    kw = {} if order is None else {'order': order}
                    if given:
                        kw['occ'] = axes[0].as_list(I)
                    return I.call(f, args, kw)
                E = ExpCheck(R, axes, amps2, order or 2, B)
                R.go('gmakeCfromT (%s, %s electron number%s)' % ('default order' if order is None else 'order %d' % order, label,
                                                                ', given reference' if given else ''), 'gmakeCfromT', f, call,
                     lambda res, oracle: E.run(res, oracle, samples), EXPT)


# ---------------------------------------------------------------- C28: operators on CI vectors

ONVEC = ('every contribution to the result is the vector entry times the signs of the excitations, added at the position '
         'of the excited determinant, exactly when the excitations exist and the determinant is in the basis')
HONVEC = 'entry i of the result is the sum over j of the matrix element between determinants i and j times entry j of the vector'


def opaque_basis(I, cls, spins):
    v = named('basis#')
    S = space('basis')
    strs = [cs.opaque(cls, sp, Dim({v: 1})) for sp in spins]
    l = PList()
    l.entries = [Entry(strs[0] if len(spins) == 1 else tuple(strs), [Binder(v, Dim(), Dim.sp(S))], [])]
    l.origin = 'argument basis'
    l.lenspace = S
    I.list_spaces[S] = l
    return l, S


def c28(s, kind='f', only=False):
    """only: just the products with a Hermitian matrix of fixed size"""
    R = CIRunner(s)
    I = R.I
    cls = R.get('Dstring')
    if cls is None:
        return
    cs.install_opaque_excite(I, cls)
    I.free_keys = ('excited', 'inlist')     # true and false both occur, independently of sizes
    I.ext['numpy.zeros'] = vector_zeros
    I.ext['numpy.zeros_like'] = vector_zeros_like
    if not hasattr(I, 'list_spaces'):
        I.list_spaces = {}
    K = '' if kind == 'f' else '#c'
    orb = {n: Dim({named('orb ' + n): 1}) for n in 'ijab'}
    ops = [('s_on_vec', ('',), 'ia', (('', 'i', 'a'),)),
           ('sa_on_vec', ('a', 'b'), 'ia', (('a', 'i', 'a'),)),
           ('sb_on_vec', ('a', 'b'), 'ia', (('b', 'i', 'a'),)),
           ('d_on_vec', ('',), 'ijab', (('', 'i', 'a'), ('', 'j', 'b'))),
           ('da_on_vec', ('a', 'b'), 'ijab', (('a', 'i', 'a'), ('a', 'j', 'b'))),
           ('db_on_vec', ('a', 'b'), 'ijab', (('b', 'i', 'a'), ('b', 'j', 'b'))),
           ('sasb_on_vec', ('a', 'b'), 'ijab', (('a', 'i', 'a'), ('b', 'j', 'b')))]
    for name, spins, args, steps in () if only else ops:
        f = R.get(name)
        if f is None:
            continue
        st = {}

        def call():
            st['basis'], S = opaque_basis(I, cls, spins)
            vec = Arr(T.atom_tensor('vec' + K, [S], kind=kind, real=kind != 'c'))
            vec.origin = 'argument vec'
            st['S'] = S
            return I.call(f, [st['basis'], vec] + [orb[x] for x in args], {})

        def verify(res, oracle):
            return check_onvec(R, res, st, cls, spins, [(sp, orb[i], orb[a]) for sp, i, a in steps])
        R.go(name, name, f, call, verify, ONVEC)
    for name, spins, el in (('H_on_vec', ('a', 'b'), 'ci_matrixel'), ('gH_on_vec', ('',), 'gci_matrixel')):
        f, m = R.get(name), R.get(el)
        if f is None or m is None:
            continue
        st = {}

        def matrixel(I, args, kwargs):
            ns = [x.arg for x in m.node.args.args]
            d = dict(zip(ns, args))
            d.update(kwargs)
            k = 2 * len(spins)
            strs = [d[n] for n in ns[:k]]
            if any(not isinstance(x, cs.OpaqueStr) or x.seq for x in strs):
                raise Unknown('determinants')
            for half in (strs[:k // 2], strs[k // 2:]):
                if [x.spin for x in half] != list(spins) or len({x.pos.key() for x in half}) > 1:
                    raise AbsError('the matrix element is taken between strings of different determinants or spins', I.loc)
            for n, want in zip(ns[k:-1], st['ints']):
                if d.get(n) is not want:
                    raise AbsError('the matrix element is not called with the integrals in their order', I.loc)
            cst = I.const_of(I.to_tensor(d[ns[-1]])) if ns[-1] in d else None
            if cst is None:
                raise Unknown('constant')
            st['const'] = cst
            if st['S'] is None:
                r = fixed_element(strs[0].pos.c, strs[k // 2].pos.c)
                return T.scalar(poly.padd(r, poly.pconst(cst)) if cst else r, kind)
            ids = [cs.pos_index(I, x.pos) for x in (strs[0], strs[k // 2])]
            at = poly.atom('matrixel' + K, 2, real=kind != 'c')
            r = {((at,) + tuple(ids),): Fraction(1)}
            if cst:
                r = poly.padd(r, poly.pconst(cst))
            return T.scalar(r, kind)

        def fixed_element(i, j):
            # elements of a Hermitian matrix
            at = poly.atom('matrixel[%d,%d]%s' % (min(i, j), max(i, j), K), 0, real=kind != 'c' or i == j)
            r = {((at,),): Fraction(1)}
            return poly.pconj(r) if i > j else r

        def call(fixed=None):
            if fixed is None:
                st['basis'], S = opaque_basis(I, cls, spins)
                vec = Arr(T.atom_tensor('vec' + K, [S], kind=kind, real=kind != 'c'))
            else:
                S = None
                one = [[cs.opaque(cls, sp, Dim({}, k)) for sp in spins] for k in range(fixed)]
                st['basis'] = I.plist([x[0] if len(spins) == 1 else tuple(x) for x in one])
                st['basis'].origin = 'argument basis'
                comp = [{((poly.atom('vec[%d]%s' % (k, K), 0, real=kind != 'c'),),): Fraction(1)} for k in range(fixed)]
                vec = Arr(Tensor(((poly.ONE,) * fixed,), {(k,): x for k, x in enumerate(comp)}, kind))
                st['want'] = Tensor(vec.read().axes, {(i,): padd_all(poly.pmul(fixed_element(i, j), comp[j]) for j in range(fixed))
                                                      for i in range(fixed)}, kind)
            st['S'] = S
            vec.origin = 'argument vec'
            x = space('mo')
            ints = [Arr(T.atom_tensor('int%d_%d%s' % (r, k, K), [x] * r, kind=kind, real=kind != 'c'))
                    for k, r in enumerate((2, 2, 4, 4, 4) if len(spins) == 2 else (2, 4))]
            for k, a in enumerate(ints):
                a.origin = 'argument %d' % (k + 2)
            st['ints'] = ints
            return I.call(f, [st['basis'], vec] + ints, {})
        I.overrides[I.qualname(m)] = matrixel
        if not only:
            R.go(name, name, f, call, lambda res, oracle: check_honvec(R, res, st, spins), HONVEC)
        R.go('%s (three determinants, %s matrix)' % (name, 'Hermitian' if kind == 'c' else 'symmetric'), name, f, lambda: call(3),
             lambda res, oracle: fixed_product(R, res, st['want'], oracle), HONVEC)
        del I.overrides[I.qualname(m)]
    if kind == 'f':
        c28(s, 'c', True)


def fixed_product(R, res, want, oracle):
    if oracle.guards:
        raise Unknown('condition on a contribution')
    return compare_tensor(R.s, R.I, res, want, 'the product')


def padd_all(ps):
    r = {}
    for p in ps:
        r = poly.padd(r, p)
    return r


def vec_writes(R, res, st):
    c = res.read() if isinstance(res, Arr) else None
    if isinstance(c, Top):
        raise Unknown(c.why)
    if not isinstance(c, cs.Vec):
        raise Unknown('the result is not a vector over the basis')
    if next(iter(c.size.t)) != st['S']:
        return 'the result has another length than the vector', None
    return None, c.writes


def forms_of(I, p, env):
    """polynomial with positions written as forms: {(name, form keys): coefficient}"""
    out = {}
    tab = I.__dict__.get('form_table', {})
    for m, c in p.items():
        k = []
        for f in m:
            k.append((poly.ATOMS[f[0]].name.split('#')[0] if f[0] != SGN else 'sign',)
                     + tuple((tab[x].key() if x in tab else Dim({x: 1}).key()) if x < 0 else x for x in f[1:]))
        k = tuple(sorted(k, key=repr))
        out[k] = out.get(k, 0) + c
    return out


def check_onvec(R, res, st, cls, spins, steps):
    I = R.I
    bad, writes = vec_writes(R, res, st)
    if bad:
        return [bad]
    lst = st['basis']
    seen = {b.var for w in writes for b in w[0]}
    for vs, loc in I.breaks:
        if seen & set(vs):
            return [('the loop over the basis ends at a determinant that contributes nothing or at the first that does; '
                     'later ones are left out', loc)]
        raise Unknown('early exit from a symbolic loop')
    outs = []
    for order in ((0,) if len(steps) == 1 else (0, 1)):
        sq = steps if not order else steps[::-1]
        outs.append(onvec_diff(R, I, writes, lst, cls, spins, sq))
        if not outs[-1]:
            break
    if len(outs) == 2 and not outs[1]:
        if steps[0][0] != steps[1][0]:
            return []
        raise Unknown('the two excitations are applied in the other order')
    return outs[0]


def onvec_diff(R, I, writes, lst, cls, spins, steps):
    out = []
    loops = {}
    for w in writes:
        bs, gs, idx, op, t, loc = w
        # different determinants are excited to different ones, so an element is written once: '=' and '+=' agree
        if len(bs) != 1:
            raise Unknown('write to the result')
        b = bs[0]
        if not (Dim.of(b.lo) == 0 and Dim.of(b.hi) == Dim.sp(lst.lenspace)):
            return [('not every determinant of the basis is visited', loc)]
        loops.setdefault(b.var, []).append(w)
    if not writes:
        return ['no contribution is added to the result']
    total = {}
    tables = []
    for var, ws in loops.items():
        pos = Dim({var: 1})
        strs = {sp: cs.opaque(cls, sp, pos) for sp in spins}
        conds, factors = [], []
        for sp, i, a in steps:
            o = strs[sp]
            strs[sp] = n = cs.opaque(cls, sp, pos, o.seq + ((i, a),))
            conds.append(('excited', n.key()))
            factors.append((cs.step_name(n), pos.key()))
        target = strs[spins[0]] if len(spins) == 1 else tuple(strs[sp] for sp in spins)
        tkey = I.value_key(target)
        conds.append(('inlist', id(lst), tkey))
        want = {tuple(sorted(factors + [('vec', pos.key())], key=repr)): Fraction(1)}
        keys = sorted({k for w in ws for k, v in w[1]} | set(conds), key=repr)
        if len(keys) > 10:
            raise Unknown('conditions')
        tables.append((pos, ws, keys, conds, tkey, want))
    if len(tables) > 1:
        raise Unknown('several loops over the basis')
    pos, ws, keys, conds, tkey, want = tables[0]
    for vals in itertools.product((True, False), repeat=len(keys)):
        env = dict(zip(keys, vals))
        # a later excitation of the same string can only exist when the earlier one does
        if any(k[0] == 'excited' and env[k] and len(k[1][3]) > 1 and
               env.get(('excited', k[1][:3] + (k[1][3][:-1],))) is False for k in keys):
            continue
        R.s.counts['cases'] = R.s.counts.get('cases', 0) + 1
        got = {}
        loc = None
        for bs, gs, idx, op, t, lc in ws:
            if all(env[k] == v for k, v in gs):
                loc = lc
                if not isinstance(idx, IndexOf) or idx.off:
                    raise Unknown('position written to')
                if idx.lst is not lst:
                    raise Unknown('position in another list')
                got[I.value_key(idx.value)] = poly.padd(got.get(I.value_key(idx.value), {}),
                                                        forms_of(I, t.scalar_poly(), env))
        got = {k: {m: c for m, c in p.items() if abs(c) > Fraction(1, 10 ** 11)} for k, p in got.items()}
        got = {k: p for k, p in got.items() if p}
        spec = {tkey: want} if all(env[k] for k in conds) else {}
        if any(k[0] == 'cmp' and k[1:] == ('+1 vec(%s)' % poly.NAMED_INFO[next(iter(pos.t))][0], '=') and env[k] for k in keys):
            spec = {}               # the entry of the vector is zero
            got = {}
        if got != spec:
            loc = loc or ws[0][5]
            extra = [k for k in keys if k not in conds]
            other = [k for k in extra if k[0] not in ('excited', 'inlist')]
            if other:
                raise Unknown('condition %r' % (other[0],))
            if spec and not got:
                out.append(('a contribution is dropped although the excited determinant is in the basis', loc))
            elif not spec:
                out.append(('a contribution is added although %s' %
                            next(('the excitation gives no state' if k[0] == 'excited' else
                                  'the determinant is not in the basis') for k in conds if not env[k]), loc))
            elif set(got) != set(spec):
                out.append(('a contribution is added at the position of another determinant', loc))
            else:
                out.append(('the contribution is not the vector entry times the signs of the excitations', loc))
            return out
    return out


def check_honvec(R, res, st, spins):
    I = R.I
    bad, writes = vec_writes(R, res, st)
    if bad:
        return [bad]
    if I.breaks:
        raise Unknown('early exit from a symbolic loop')
    lst = st['basis']
    if not writes:
        return ['no contribution is added to the result']
    S = Dim.sp(lst.lenspace)
    got = {}
    for bs, gs, idx, op, t, loc in writes:
        if gs:
            raise Unknown('condition on a contribution')
        if any(not (Dim.of(b.lo) == 0 and Dim.of(b.hi) == S) for b in bs):
            raise Unknown('range of a loop')
        if not isinstance(idx, Dim):
            raise Unknown('position written to')
        vs = list(idx.t)
        if len(vs) != 1 or idx.c or idx.t[vs[0]] != 1 or vs[0] not in [b.var for b in bs]:
            raise Unknown('position written to')
        for m in t.scalar_poly():
            for x in (x for f in m for x in f[1:]):
                if not (x >= 1000 or x in [b.var for b in bs]):
                    raise Unknown('position read')
        ren = {Dim({b.var: 1}).key(): 'j' for b in bs}
        ren[idx.key()] = 'i'
        for m, c in forms_of(I, t.scalar_poly(), {}).items():
            if op == '+=' and len(bs) != 2 or op == '=' and len(bs) != 1:
                raise Unknown('loops around a contribution')
            k = tuple(sorted(((f[0],) + tuple(ren.get(x, 'j' if isinstance(x, int) and x >= 1000 else x) for x in f[1:])
                              for f in m), key=repr))
            got[k] = got.get(k, 0) + c
        R.s.terms += 1
    want = {(('matrixel', 'i', 'j'), ('vec', 'j')): Fraction(1)}
    if got != want:
        loc = writes[0][5]
        if st.get('const'):
            return [('the matrix elements contain a constant (%s)' % float(st['const']), loc)]
        if set(got) == {(('matrixel', 'j', 'i'), ('vec', 'j'))}:
            return [('the matrix element is taken between determinants j and i (the transposed matrix)', loc)]
        return [('the contribution is %s' % ' + '.join(
            '%s %s' % (float(c), ' '.join('%s[%s]' % (f[0], ','.join(str(x) for x in f[1:])) for f in k))
            for k, c in got.items()), loc)]
    return []
