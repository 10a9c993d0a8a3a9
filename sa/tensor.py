"""Abstract tensors: symbolic-size axes cut into segments, one polynomial per block."""
from fractions import Fraction
import itertools

from . import poly
from .poly import (ONE, SPACE_NAMES, NAMED_INFO, const_space, space, frac, pconst, padd, padd_into, pscale, pmap, pconj,
                   pprod, pmul, pclean, atom, show, canon)


class SpaceError(Exception):
    """definite index-space (shape) error: some admissible sizes make this operation fail or mean something else"""


class Unknown(Exception):
    """outside the modelled language"""


# ---------------------------------------------------------------- sizes

SIZES = {}              # spaces whose size is a linear form in others


class Dim(object):
    """integer linear form over dimensions of spaces (all >= 0)"""
    __slots__ = ('t', 'c')
    MIN = 0             # least size of a space assumed in comparisons

    def __init__(self, t=None, c=0):
        self.t = {k: v for k, v in (t or {}).items() if v}
        self.c = c

    @staticmethod
    def of(x):
        if isinstance(x, Dim):
            return x
        if isinstance(x, bool):
            return Dim(None, int(x))
        if isinstance(x, int):
            return Dim(None, x)
        raise Unknown('size %r' % (x,))

    @staticmethod
    def sp(s):
        n = SPACE_NAMES[s]
        if s in SIZES:
            return SIZES[s]
        if s == ONE:
            return Dim(None, 1)
        if n.startswith('#'):
            return Dim(None, int(n[1:]))
        return Dim({s: 1}, 0)

    def simp(self):
        return self.c if not self.t else self

    def add(self, o, k=1):
        if not isinstance(o, Dim):
            o = Dim.of(o)
        r = Dim.__new__(Dim)
        r.c = self.c + k * o.c
        r.t = t = dict(self.t)
        for s, v in o.t.items():
            n = t.get(s, 0) + k * v
            if n:
                t[s] = n
            else:
                t.pop(s, None)
        return r

    def subst(self, env):
        """replace the variables of env by their forms (None if a loop variable is left)"""
        d = self
        for s, c in self.t.items():
            if s < 0:
                if s not in env:
                    return None
                d = d.add(Dim({s: 1}), -c).add(env[s], c)
        return d

    def mul(self, n):
        return Dim({s: v * n for s, v in self.t.items()}, self.c * n)

    def eq(self, o):
        """True / False / None"""
        d = self.add(o, -1)
        if not d.t:
            return d.c == 0
        c = d.c
        if Dim.MIN:
            c += Dim.MIN * sum(v for s, v in d.t.items() if s >= 0)
        if c > 0 and all(v > 0 for v in d.t.values()):
            return False
        if c < 0 and all(v < 0 for v in d.t.values()):
            return False
        return None

    def lt(self, o):
        d = Dim.of(o).add(self, -1)      # o - self > 0 ?
        c = d.c
        if Dim.MIN:
            c += Dim.MIN * sum(v for s, v in d.t.items() if s >= 0)
        if c > 0 and all(v >= 0 for v in d.t.values()):
            return True
        if c <= 0 and all(v <= 0 for v in d.t.values()):
            return False
        return None

    def le(self, o):
        r = Dim.of(o).lt(self)
        return None if r is None else not r

    def floordiv(self, n):
        if all(v % n == 0 for v in self.t.values()):
            return Dim({s: v // n for s, v in self.t.items()}, self.c // n).simp()
        raise Unknown('size division')

    def mod(self, n):
        if all(v % n == 0 for v in self.t.values()):
            return self.c % n
        raise Unknown('size remainder')

    def key(self):
        return (tuple(sorted(self.t.items())), self.c)

    def __eq__(self, o):
        return isinstance(o, (Dim, int)) and self.key() == Dim.of(o).key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        s = ['%s%s' % ('' if v == 1 else '%d*' % v, SPACE_NAMES[k] if k >= 0 else NAMED_INFO[k][0])
             for k, v in sorted(self.t.items())]
        if self.c or not s:
            s.append(str(self.c))
        return '+'.join(s)


def axis_dim(ax):
    d = Dim()
    for s in ax:
        d = d.add(Dim.sp(s))
    return d


def axis_name(ax):
    return '+'.join(SPACE_NAMES[s] for s in ax)


# ---------------------------------------------------------------- value kinds

KINDS = {'b': 0, 'i': 1, 'f': 2, 'c': 3}


def kjoin(*ks):
    return max(ks, key=lambda k: KINDS[k])


def free_indices(p):
    return sorted({i for m in p for f in m for i in f[1:] if 0 <= i < 1000})


def opaque(name, p, real=False):
    """the polynomial name(p) as a single atom; equal arguments (up to the order of their axes) give equal atoms"""
    sgn = {i for m in p for f in m if f[0] == poly.SGN for i in f[1:]}
    idx = sorted({i for m in p for f in m for i in f[1:] if i < 1000 and i not in sgn})
    best = None
    for perm in itertools.permutations(range(len(idx))):
        q = pmap(p, lambda i: perm[idx.index(i)] if i in idx else i)
        s = show(q)
        if best is None or s < best[0]:
            best = (s, perm)
    s, perm = best
    order = [None] * len(idx)
    for k, q in enumerate(perm):
        order[q] = idx[k]
    a = atom('%s<%s>' % (name, s), len(idx), real=real)
    return {((a,) + tuple(order),): Fraction(1)}


def elementwise(name, val, kind, zero=None, real=False):
    """name applied to each element; zero is the value at 0 (None: also opaque)"""
    blocks = {}
    for k in itertools.product(*[range(len(a)) for a in val.axes]):
        p = val.blocks.get(k, {})
        if not p and zero is not None:
            if zero:
                blocks[k] = pconst(zero)
            continue
        blocks[k] = opaque(name, p, real)
    return Tensor(val.axes, blocks, kind)


def lossy(name, val, kind):
    """result of an information-losing operation: opaque atoms, one per (operation, value)"""
    return elementwise(name, val, kind, zero=0)


def uniform_runs(t, axis):
    """runs of neighbouring segments of an axis along which the tensor does not vary (equal blocks, no index of that axis)"""
    runs = []
    last = None
    for s in range(len(t.axes[axis])):
        b = {k[:axis] + k[axis + 1:]: p for k, p in t.blocks.items() if k[axis] == s}
        if any(axis in f[1:] for p in b.values() for m in p for f in m):
            last = None
            continue
        if last is not None and b == last:
            runs[-1].append(s)
        else:
            runs.append([s])
        last = b
    return runs


def reseg(t, axis, new):
    """t with segments of an axis along which it is uniform reordered to new; None if impossible"""
    old = t.axes[axis]
    new = tuple(new)
    if old == new:
        return t
    if axis_dim(old) != axis_dim(new):
        return None
    runs = uniform_runs(t, axis)
    if len(runs) == 1 and len(runs[0]) == len(old):
        ref = {k[:axis] + k[axis + 1:]: p for k, p in t.blocks.items() if k[axis] == 0}
        blocks = {}
        for s in range(len(new)):
            for k, p in ref.items():
                blocks[k[:axis] + (s,) + k[axis:]] = p
        return Tensor(t.axes[:axis] + (new,) + t.axes[axis + 1:], blocks, t.kind)
    if len(old) != len(new):
        return None
    inside = {s for r in runs for s in r}
    if any(old[s] != new[s] and s not in inside for s in range(len(old))):
        return None
    if any(axis_dim([old[s] for s in r]) != axis_dim([new[s] for s in r]) for r in runs):
        return None
    return Tensor(t.axes[:axis] + (new,) + t.axes[axis + 1:], t.blocks, t.kind)


# ---------------------------------------------------------------- tensors

class Tensor(object):
    __slots__ = ('axes', 'blocks', 'kind')

    def __init__(self, axes, blocks, kind):
        self.axes = tuple(tuple(a) for a in axes)
        self.blocks = {k: p for k, p in blocks.items() if p}
        self.kind = kind

    @property
    def rank(self):
        return len(self.axes)

    def shape(self):
        return tuple(axis_dim(a).simp() for a in self.axes)

    def scalar_poly(self):
        return self.blocks.get((), {})

    def __repr__(self):
        return 'Tensor<%s | %s>' % (','.join(axis_name(a) for a in self.axes),
                                    '; '.join('%s: %s' % (k, show(p, limit=6)) for k, p in sorted(self.blocks.items())))


def scalar(p, kind='f'):
    return Tensor((), {(): p}, kind)


def const(c):
    return scalar(pconst(c), 'i' if isinstance(c, int) else 'f')


def sym_scalar(name, kind='f', real=True):
    return scalar({((atom(name, 0, real=real),),): Fraction(1)}, kind)


def zeros(axes, kind='f'):
    return Tensor(axes, {}, kind)


def full(axes, c, kind='f'):
    t = Tensor(axes, {}, kind)
    p = pconst(c)
    for key in itertools.product(*[range(len(a)) for a in t.axes]):
        t.blocks[key] = p
    if not p:
        t.blocks = {}
    return t


def atom_tensor(name, axes, sym=(), kind='c', real=False, split=None):
    """a tensor input; axes are tuples of spaces; one atom for all blocks (the spaces of its indices tell them apart)"""
    axes = tuple((a,) if isinstance(a, int) else tuple(a) for a in axes)
    a = atom(name, len(axes), sym, real)
    p = {((a,) + tuple(range(len(axes))),): Fraction(1)}
    blocks = {}
    for key in itertools.product(*[range(len(x)) for x in axes]):
        m = {n: poly.named('@%d' % k) for n, (x, k) in enumerate(zip(axes, key)) if x[k] == ONE}
        blocks[key] = pmap(p, lambda i: m.get(i, i)) if m else p
    return Tensor(axes, blocks, kind)


# ---------------------------------------------------------------- small instances

class Small(object):
    """fixed small sizes of all spaces: every element of an array is then a value of its own"""
    active = False          # arrays made by modelled library calls are instances too
    NAMED = {'o': 2, 'v': 3, 'oa': 2, 'va': 2, 'ob': 2, 'vb': 3, 'n': 3}
    SPREAD = None           # sizes of some spaces when those of the others are to differ from each other
    STEP = 4
    LIMIT = 20000           # elements of one array

    @staticmethod
    def size(s):
        if s == ONE:
            return 1
        n = SPACE_NAMES[s]
        if Small.SPREAD is not None:
            return Small.SPREAD.get(n, 1 + s % Small.STEP)
        if n in Small.NAMED:
            return Small.NAMED[n]
        return 2 + s % 2


def small_dim(d):
    if not isinstance(d, Dim) or any(s < 0 for s in d.t):
        return d
    return d.c + sum(c * Small.size(s) for s, c in d.t.items())


def small(t):
    """the tensor with every space replaced by that many single elements"""
    axes, pos = [], []
    tot = 1
    for a in t.axes:
        ps = [[(s, k) for k in range(Small.size(s))] if s != ONE else [(None, 0)] for s in a]
        pos.append(ps)
        n = sum(len(x) for x in ps)
        axes.append((ONE,) * n)
        tot *= n
    if tot > Small.LIMIT:
        raise poly.Exhausted('an array grows beyond the analysis budget')
    start = [[sum(len(x) for x in ps[:k]) for k in range(len(ps))] for ps in pos]
    blocks = {}
    for key, p in t.blocks.items():
        p = small_poly(p)
        for choice in itertools.product(*[range(len(pos[n][k])) for n, k in enumerate(key)]):
            m = {}
            for n, (k, c) in enumerate(zip(key, choice)):
                s, i = pos[n][k][c]
                m[n] = n if s is None else poly.named('%s.%d' % (SPACE_NAMES[s], i))
            q = pmap(p, lambda i: m[i] if 0 <= i < 1000 else i)
            if q:
                blocks[tuple(start[n][k] + c for n, (k, c) in enumerate(zip(key, choice)))] = q
    return Tensor(axes, blocks, t.kind)


def small_poly(p):
    """sums over indices written out"""
    r = {}
    for mono, v in p.items():
        d = sorted({i for f in mono for i in f[1:] if i >= 1000 and poly.space_of(i) != ONE})
        c0 = 1
        fs = []
        for f in mono:
            n = poly.ATOMS[f[0]].name
            if n.startswith('dim:'):
                c0 *= Small.size(poly.SPACE_IDS[n[4:]])
            else:
                fs.append(f)
        for vals in itertools.product(*[range(Small.size(poly.space_of(i))) for i in d]):
            m = {i: poly.named('%s.%d' % (SPACE_NAMES[poly.space_of(i)], k)) for i, k in zip(d, vals)}
            poly.Budget.spend(1)
            sg, k = canon([(f[0],) + tuple(m.get(i, i) for i in f[1:]) for f in fs])
            if sg:
                padd_into(r, {k: v * sg * c0})
    return r


def _permute_poly(p, m):
    return pmap(p, lambda i: m[i] if 0 <= i < 1000 else i)


def transpose(t, perm):
    n = t.rank
    perm = tuple(q % n if q < 0 else q for q in perm)
    if sorted(perm) != list(range(n)):
        raise SpaceError('transpose%r of a rank-%d array' % (perm, n))
    inv = [0] * n
    for k, q in enumerate(perm):
        inv[q] = k
    if list(perm) == list(range(n)):
        return t
    return Tensor([t.axes[q] for q in perm],
                  {tuple(k[q] for q in perm): _permute_poly(p, inv) for k, p in t.blocks.items()}, t.kind)


def neg(t):
    return Tensor(t.axes, {k: pscale(p, -1) for k, p in t.blocks.items()}, t.kind)


def scale(t, c):
    return Tensor(t.axes, {k: pscale(p, c) for k, p in t.blocks.items()},
                  kjoin(t.kind, 'i' if isinstance(c, int) else 'f'))


def conj(t):
    if t.kind != 'c':
        return t
    return Tensor(t.axes, {k: pconj(p) for k, p in t.blocks.items()}, t.kind)


def _refine(ax, bx):
    """common segmentation of two axes of equal total length, or None"""
    if ax == bx:
        return ax
    return None


def align(a, b):
    """reorder segments of uniform axes so that the axes of a and b agree where possible"""
    na, nb = a.rank, b.rank
    for k in range(1, min(na, nb) + 1):
        x, y = a.axes[na - k], b.axes[nb - k]
        if x != y and x != (ONE,) and y != (ONE,):
            r = reseg(a, na - k, y)
            if r is not None:
                a = r
                continue
            r = reseg(b, nb - k, x)
            if r is not None:
                b = r
    return a, b


def broadcast_axes(a, b):
    n = max(a.rank, b.rank)
    A = ((ONE,),) * (n - a.rank) + a.axes
    B = ((ONE,),) * (n - b.rank) + b.axes
    out = []
    for x, y in zip(A, B):
        if x == y:
            out.append(x)
        elif x == (ONE,):
            out.append(y)
        elif y == (ONE,):
            out.append(x)
        else:
            raise SpaceError('operands have axes %s and %s' % (axis_name(x), axis_name(y)))
    return tuple(out)


def expand(t, axes):
    """broadcast t to axes"""
    n = len(axes)
    off = n - t.rank
    if off == 0 and t.axes == axes:
        return t
    if off < 0:
        raise SpaceError('cannot broadcast rank %d to rank %d' % (t.rank, n))
    choice = []
    for k in range(n):
        if k < off or (t.axes[k - off] == (ONE,) and axes[k] != (ONE,)):
            choice.append(range(len(axes[k])))
        else:
            if t.axes[k - off] != axes[k]:
                r = reseg(t, k - off, axes[k])
                if r is not None:
                    return expand(r, axes)
                raise SpaceError('cannot broadcast axis %s to %s' % (axis_name(t.axes[k - off]), axis_name(axes[k])))
            choice.append(None)
    blocks = {}
    for key, p in t.blocks.items():
        q = _permute_poly(p, {i: i + off for i in range(t.rank)}) if off else p
        for kk in itertools.product(*[c if c is not None else (key[k - off],) for k, c in enumerate(choice)]):
            blocks[kk] = q
    return Tensor(axes, blocks, t.kind)


def add(a, b, sign=1):
    if a.axes != b.axes:
        a, b = align(a, b)
    axes = broadcast_axes(a, b)
    a = expand(a, axes)
    b = expand(b, axes)
    blocks = {k: dict(p) for k, p in a.blocks.items()}
    for k, p in b.blocks.items():
        if k in blocks:
            padd_into(blocks[k], p, sign)
        else:
            blocks[k] = pscale(p, sign)
    return Tensor(axes, blocks, kjoin(a.kind, b.kind))


def mul(a, b):
    if a.axes != b.axes:
        a, b = align(a, b)
    axes = broadcast_axes(a, b)
    a = expand(a, axes)
    b = expand(b, axes)
    blocks = {}
    for k, p in a.blocks.items():
        q = b.blocks.get(k)
        if q:
            blocks[k] = pmul(p, q)
    return Tensor(axes, blocks, kjoin(a.kind, b.kind))


def einsum(spec, ops):
    spec = spec.replace(' ', '')
    if '.' in spec:
        raise Unknown('einsum ellipsis')
    if '->' in spec:
        lhs, out = spec.split('->')
    else:
        lhs = spec
        out = ''.join(sorted(c for c in set(lhs.replace(',', '')) if lhs.replace(',', '').count(c) == 1))
    subs = lhs.split(',')
    if len(subs) != len(ops):
        raise SpaceError("einsum '%s' with %d operands" % (spec, len(ops)))
    ax = {}
    for s, t in zip(subs, ops):
        if len(s) != t.rank:
            raise SpaceError("einsum '%s': subscript '%s' for a rank-%d operand" % (spec, s, t.rank))
        for n, (c, a) in enumerate(zip(s, t.axes)):
            if c in ax and ax[c] != a:
                if a == (ONE,):
                    continue
                if ax[c] != (ONE,):
                    r = reseg(t, n, ax[c])
                    if r is not None:
                        ops = [r if o is t else o for o in ops]
                        return einsum(spec, ops)
                    raise SpaceError("einsum '%s': index %s runs over %s and over %s"
                                     % (spec, c, axis_name(ax[c]), axis_name(a)))
            ax[c] = a
    for c in out:
        if c not in ax:
            raise SpaceError("einsum '%s': output index %s not in the inputs" % (spec, c))
    if len(set(out)) != len(out):
        raise SpaceError("einsum '%s': repeated output index" % spec)
    summed = [c for c in ax if c not in out]
    axes = tuple(ax[c] for c in out)
    blocks = {}

    def rec(n, assign, polys):
        if n == len(ops):
            # labels only on length-one axes or unassigned never happen: every label is on some operand
            lab = {}
            for k, c in enumerate(out):
                lab[c] = k
            cnt = 0
            for c in summed:
                s = ax[c][assign[c]]
                lab[c] = (s + 1) * 1000 + 900 + cnt
                cnt += 1
            maps = [[lab[c] for c in s] for s in subs]
            p = pprod(polys, maps)
            # a summed index that occurs in no factor contributes the dimension of its space
            p = _dim_factors(p, polys, maps, [(lab[c], ax[c][assign[c]]) for c in summed])
            key = tuple(assign[c] for c in out)
            if key in blocks:
                padd_into(blocks[key], p)
            else:
                blocks[key] = p
            return
        s, t = subs[n], ops[n]
        for key, p in t.blocks.items():
            new = dict(assign)
            ok = True
            for c, k, a in zip(s, key, t.axes):
                if a == (ONE,) and ax[c] != (ONE,):
                    continue
                if c in new:
                    if new[c] != k:
                        ok = False
                        break
                else:
                    new[c] = k
            if ok:
                rec(n + 1, new, polys + [p])
    rec(0, {}, [])
    return Tensor(axes, blocks, kjoin(*[t.kind for t in ops]))


def _dim_factors(p, polys, maps, labs):
    missing = []
    for lab, s in labs:
        hit = False
        for q, m in zip(polys, maps):
            places = [k for k, l in enumerate(m) if l == lab]
            if places and all(any(i in places for f in mono for i in f[1:]) for mono in q):
                hit = True
                break
        if not hit:
            missing.append((lab, s))
    if not missing:
        return p
    r = {}
    for combo in itertools.product(*[list(q.items()) for q in polys]):
        used = {m[i] for (mono, v), m in zip(combo, maps) for f in mono for i in f[1:] if 0 <= i < 1000}
        q = pprod([{mono: v} for mono, v in combo], maps)
        for lab, s in missing:
            if lab not in used:
                d = Dim.sp(s)
                if not d.t:
                    q = pscale(q, d.c)
                else:
                    q = pmul(q, {((atom('dim:' + SPACE_NAMES[s], 0, real=True),),): Fraction(1)})
        padd_into(r, q)
    return r


def sum_axis(t, axis):
    n = t.rank
    axis = axis % n
    letters = 'abcdefghijklmnopqrstuvwxyz'[:n]
    return einsum(letters + '->' + letters.replace(letters[axis], ''), [t])


def sum_all(t):
    letters = 'abcdefghijklmnopqrstuvwxyz'[:t.rank]
    return einsum(letters + '->', [t])


def select(t, axis, segs, axspec):
    """restrict an axis to the listed segment numbers (in that order), axspec is the new axis"""
    pos = {}
    for n, s in enumerate(segs):
        pos.setdefault(s, []).append(n)
    blocks = {}
    for k, p in t.blocks.items():
        for n in pos.get(k[axis], ()):
            blocks[k[:axis] + (n,) + k[axis + 1:]] = p
    return Tensor(t.axes[:axis] + (tuple(axspec),) + t.axes[axis + 1:], blocks, t.kind)


def concat(ts, axis):
    n = ts[0].rank
    axis = axis % n
    for t in ts[1:]:
        if t.rank != n:
            raise SpaceError('concatenation of arrays of different rank')
        for k in range(n):
            if k != axis and t.axes[k] != ts[0].axes[k]:
                raise SpaceError('concatenation along axis %d: axis %d is %s and %s'
                                 % (axis, k, axis_name(ts[0].axes[k]), axis_name(t.axes[k])))
    ax = ()
    blocks = {}
    kind = kjoin(*[t.kind for t in ts])
    for t in ts:
        off = len(ax)
        for k, p in t.blocks.items():
            blocks[k[:axis] + (k[axis] + off,) + k[axis + 1:]] = p
        ax = ax + t.axes[axis]
    axes = list(ts[0].axes)
    axes[axis] = ax
    return Tensor(axes, blocks, kind)


def drop_axis(t, axis):
    """remove a length-one axis"""
    if t.axes[axis] != (ONE,):
        raise SpaceError('axis %s is not of length one' % axis_name(t.axes[axis]))
    m = {i: (i if i < axis else i - 1) for i in range(t.rank)}
    m[axis] = 0
    return Tensor(t.axes[:axis] + t.axes[axis + 1:],
                  {k[:axis] + k[axis + 1:]: _permute_poly(_no_axis(p, axis), m) for k, p in t.blocks.items()}, t.kind)


def _no_axis(p, axis):
    for mono in p:
        for f in mono:
            if axis in f[1:]:
                raise Unknown('index over a length-one axis')
    return p


def add_axis(t, axis):
    m = {i: (i if i < axis else i + 1) for i in range(t.rank)}
    return Tensor(t.axes[:axis] + ((ONE,),) + t.axes[axis:],
                  {k[:axis] + (0,) + k[axis:]: _permute_poly(p, m) for k, p in t.blocks.items()}, t.kind)


def fix_index(t, axis, idx, seg):
    """element idx (a named index lying in segment seg) of an axis"""
    m = {i: (i if i < axis else i - 1) for i in range(t.rank)}
    m[axis] = idx
    blocks = {}
    for k, p in t.blocks.items():
        if k[axis] == seg:
            blocks[k[:axis] + k[axis + 1:]] = _permute_poly(p, m)
    return Tensor(t.axes[:axis] + t.axes[axis + 1:], blocks, t.kind)


def diff_tensor(a, b):
    """a - b as (list of (block key, difference polynomial)), after dropping rounding-size coefficients; also axes mismatch"""
    if a.axes != b.axes:
        return [('shape', 'axes are (%s), expected (%s)' % (', '.join(axis_name(x) for x in a.axes),
                                                           ', '.join(axis_name(x) for x in b.axes)))]
    out = []
    for k in sorted(set(a.blocks) | set(b.blocks)):
        d = pclean(padd(a.blocks.get(k, {}), b.blocks.get(k, {}), -1))
        if d:
            out.append((k, d))
    return out
