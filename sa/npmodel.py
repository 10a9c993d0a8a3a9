"""Models of the Python builtins, numpy, pyscf.lib and a few others used by array code."""
import itertools
from fractions import Fraction

from . import poly
from . import tensor as T
from .poly import ONE
from .tensor import (Dim, SIZES, Tensor, SpaceError, Unknown, axis_dim, axis_name, add, mul, neg, scale, const, scalar, conj,
                     transpose, einsum, KINDS, kjoin, lossy, elementwise, concat, add_axis, drop_axis)
from .values import (Top, DType, Ext, Native, Module, Func, Cls, Obj, Bound, Arr, Entry, PList, PDict, Cond, Gen,
                     Unshaped)

BUILTINS = set('''abs all any bool complex dict divmod enumerate filter float frozenset getattr hasattr int isinstance
issubclass iter len list map max min next object pow print property range repr reversed round set setattr slice sorted
staticmethod classmethod str sum super tuple type vars zip Exception ValueError TypeError IndexError KeyError
NotImplementedError AttributeError RuntimeError ImportError ModuleNotFoundError AssertionError StopIteration
ZeroDivisionError OverflowError ArithmeticError LookupError callable id hash format chr ord Ellipsis NotImplemented
__name__ __import__ globals locals bytes open input True False None FutureWarning Warning DeprecationWarning
UserWarning BaseException'''.split())

DTYPES = {'float': 'f', 'float64': 'f', 'double': 'f', 'complex': 'c', 'complex128': 'c', 'cdouble': 'c', 'int': 'i',
          'int64': 'i', 'intp': 'i', 'int32': 'i', 'bool': 'b', 'bool_': 'b', 'float32': 'f', 'single': 'f',
          'complex64': 'c', 'float_': 'f', 'complex_': 'c', 'longdouble': 'f', 'clongdouble': 'c', 'int_': 'i',
          'uint8': 'i', 'int8': 'i', 'float16': 'f', 'd': 'f', 'D': 'c', 'f8': 'f', 'c16': 'c', 'half': 'f',
          'csingle': 'c', 'f4': 'f', 'c8': 'c', 'F': 'c', 'f': 'f'}
NARROW = {'float32', 'single', 'complex64', 'float16', 'half', 'csingle', 'f4', 'c8', 'F', 'f'}

# operations that lose information about their argument: definitely not the identity
LOSSY = {'round', 'around', 'round_', 'rint', 'floor', 'ceil', 'trunc', 'fix', 'clip', 'abs', 'absolute',
         'fabs', 'sign', 'angle', 'heaviside'}
UNARY = {'exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'log1p', 'expm1', 'exp2', 'log2', 'log10', 'tanh', 'sinh', 'cosh',
         'arctan', 'arcsin', 'arccos', 'cbrt', 'square', 'reciprocal', 'negative', 'positive', 'conj', 'conjugate'}


def to_dtype(I, d, default='f'):
    if d is None:
        return DType(default)
    if isinstance(d, DType):
        return d
    if isinstance(d, Ext):
        n = d.path.split('.')[-1]
        if n in DTYPES:
            return DType(DTYPES[n], n if n in NARROW else None)
    if isinstance(d, str) and d in DTYPES:
        return DType(DTYPES[d], d if d in NARROW else None)
    raise Unknown('dtype %r' % (d,))


def dim_axis(I, d):
    """axis for a size: spaces in the order in which the size was added up"""
    if isinstance(d, bool):
        raise Unknown('size')
    if isinstance(d, int):
        if d < 0:
            raise Unknown('negative size')
        if d > 64:
            raise Unknown('large literal size')
        return (ONE,) * d
    if isinstance(d, Tensor):
        c = I.const_of(d)
        if c is not None and c.denominator == 1:
            return dim_axis(I, int(c))
        raise Unknown('size product')
    if isinstance(d, Dim):
        ax = []
        if any(s < 0 for s in d.t):
            raise Unknown('size depending on a loop variable')
        if d.c < 0 or any(c < 0 for c in d.t.values()):
            if I.dim_nonneg(d) is not True:
                raise Unknown('size difference')
            s = poly.space('<%r>' % (d,))       # a space of its own with that size
            SIZES[s] = d
            return (s,)
        for s, c in d.t.items():
            ax += [s] * c
        ax += [ONE] * d.c
        return tuple(ax)
    raise Unknown('size %r' % (d,))


def shape_axes(I, shape):
    if isinstance(shape, (int, Dim, Tensor)):
        shape = (shape,)
    elif isinstance(shape, PList):
        shape = tuple(shape.values())
    elif isinstance(shape, Arr):
        shape = tuple(I.concrete_iter(shape))
    if isinstance(shape, Top):
        raise Unknown(shape.why)
    if isinstance(shape, ShapeTuple):
        return shape.axes
    if not isinstance(shape, tuple):
        raise Unknown('shape %r' % (shape,))
    return tuple(x.axis if isinstance(x, SizeOf) else dim_axis(I, x) for x in shape)


class ShapeTuple(tuple):
    """shape of an array: remembers the axes"""
    axes = None


class SizeOf(Dim):
    """size of a known axis: remembers its segmentation"""
    __slots__ = ('axis',)


def size_of(ax):
    d = axis_dim(ax)
    if not d.t:
        return d.c
    s = SizeOf(d.t, d.c)
    s.axis = ax
    return s


def make_shape(axes):
    s = ShapeTuple(size_of(a) for a in axes)
    s.axes = axes
    return s


# ---------------------------------------------------------------- einsum

def np_einsum(I, spec, *ops, **kw):
    out = kw.pop('out', None)
    dtype = kw.pop('dtype', None)
    kw.pop('optimize', None)
    kw.pop('casting', None)
    kw.pop('order', None)
    if kw:
        raise Unknown('einsum keywords %s' % sorted(kw))
    if not isinstance(spec, str):
        raise Unknown('einsum without a subscript string')
    I.einsum_sites.add((I.relpath(I.loc[0]), I.loc[2]))
    for o in ops:
        if isinstance(o, Top):
            I.unknowns.append((I.loc, o.why))
            return Top(o.why)
    for o in ops:
        if isinstance(o, Arr) and not isinstance(o.read(), (Tensor, Top)):
            r = o.read()
            if hasattr(r, 'sa_einsum'):
                return r.sa_einsum(I, spec, ops)
    ts = [I.to_tensor(o) for o in ops]
    try:
        t = einsum(spec, ts)
    except SpaceError:
        raise
    if dtype is not None:
        t = cast(I, t, to_dtype(I, dtype))
    I.array_ops += 1
    if out is not None:
        if not isinstance(out, Arr):
            raise Unknown('out=')
        cur = I.to_tensor(out)
        t = T.expand(t, cur.axes)
        I.write(out, Tensor(t.axes, t.blocks, cur.kind))
        return out
    # numpy returns a view for a single operand without summation
    if len(ops) == 1 and isinstance(ops[0], Arr) and t.rank:
        sp = spec.replace(' ', '')
        lhs, _, rhs = sp.partition('->')
        if rhs and sorted(lhs) == sorted(rhs) and len(set(lhs)) == len(lhs):
            perm = tuple(lhs.index(c) for c in rhs)
            return view_transpose(I, ops[0], perm)
    return I.wrap(t)


def view_transpose(I, arr, perm):
    n = len(perm)
    inv = [0] * n
    for k, q in enumerate(perm):
        inv[q % n] = k
    return I.view(arr, lambda b: transpose(b, perm), lambda b, new: transpose(new, inv))


def cast(I, t, d):
    if isinstance(t, Top):
        return t
    if d.narrow:
        return lossy('narrow', t, d.kind)
    if KINDS[t.kind] > KINDS[d.kind]:
        if d.kind in 'ib':
            for p in t.blocks.values():
                if set(p) - {()} or any(c.denominator != 1 for c in p.values()):
                    return lossy('int', t, d.kind)
            return Tensor(t.axes, t.blocks, d.kind)
        I.loss_events.append((I.loc, t.kind, d.kind))
        return lossy('real', t, d.kind)
    return Tensor(t.axes, t.blocks, d.kind)


# ---------------------------------------------------------------- array creation

def np_zeros(I, shape, dtype=None, order=None, like=None):
    d = to_dtype(I, dtype)
    return I.new(T.zeros(shape_axes(I, shape), d.kind)) if not d.narrow else narrow_zero(I, shape, d)


def narrow_zero(I, shape, d):
    raise Unknown('single precision array')


def np_ones(I, shape, dtype=None, order=None):
    d = to_dtype(I, dtype)
    return I.new(T.full(shape_axes(I, shape), 1, d.kind))


def np_full(I, shape, v, dtype=None, order=None):
    t = I.to_tensor(v)
    axes = shape_axes(I, shape)
    k = to_dtype(I, dtype).kind if dtype is not None else t.kind
    return I.new(T.expand(Tensor(t.axes, t.blocks, k), axes))


def np_empty(I, shape, dtype=None, order=None):
    axes = shape_axes(I, shape)
    I.loopvar += 1
    t = T.atom_tensor('uninitialised#%d' % I.loopvar, axes, kind=to_dtype(I, dtype).kind)
    return I.new(t)


def like_kind(I, a, dtype):
    t = I.to_tensor(a)
    return t, (to_dtype(I, dtype).kind if dtype is not None else t.kind)


def np_zeros_like(I, a, dtype=None, order=None, subok=None, shape=None):
    if isinstance(a, Arr) and isinstance(a.read(), Tensor) and a.root().logs:
        t = a.read()
        return I.new(T.zeros(t.axes, to_dtype(I, dtype).kind if dtype is not None else t.kind))
    t, k = like_kind(I, a, dtype)
    return I.wrap(T.zeros(t.axes, k))


def np_ones_like(I, a, dtype=None, **kw):
    t, k = like_kind(I, a, dtype)
    return I.wrap(T.full(t.axes, 1, k))


def np_empty_like(I, a, dtype=None, **kw):
    t, k = like_kind(I, a, dtype)
    return np_empty(I, make_shape(t.axes), DType(k))


def np_full_like(I, a, v, dtype=None, **kw):
    t, k = like_kind(I, a, dtype)
    return np_full(I, make_shape(t.axes), v, DType(k))


def delta(ax, kind):
    a = poly.atom('delta', 2, [((1, 0), 1)], real=True)
    return Tensor((ax, ax), {(k, k): ({((a, 0, 1),): Fraction(1)} if s != ONE else poly.pconst(1))
                             for k, s in enumerate(ax)}, kind)


def np_eye(I, n, m=None, k=0, dtype=None):
    if m is not None and not (m == n) or k != 0:
        raise Unknown('eye')
    ax = n.axis if isinstance(n, SizeOf) else dim_axis(I, n)
    return I.new(delta(ax, to_dtype(I, dtype).kind))


def np_array(I, a, dtype=None, copy=True, order=None, ndmin=0, subok=None):
    return as_array(I, a, dtype, copy is not False)


def as_array(I, a, dtype=None, copy=False):
    if isinstance(a, Top):
        return Top(a.why)
    if isinstance(a, Arr):
        if dtype is not None:
            d = to_dtype(I, dtype)
            t = a.read()
            if isinstance(t, Tensor) and (t.kind != d.kind or d.narrow):
                return I.new(cast(I, I.to_tensor(a), d))
        return np_copy(I, a) if copy else a
    if isinstance(a, PList) and a.attrs and 'moved' in a.attrs:
        return Arr(a.attrs['moved'], depth=I.depth)
    if isinstance(a, PList) and not a.concrete():
        return symbolic_vector(I, a, dtype)
    if hasattr(a, 'sa_asarray'):
        return a.sa_asarray(I, dtype)
    if isinstance(a, (PList, tuple)):
        vals = a.values() if isinstance(a, PList) else list(a)
        hook = getattr(I, 'array_hook', None)
        if hook is not None:
            r = hook(I, vals, dtype)
            if r is not None:
                return r
        if vals and all(isinstance(v, (PList, tuple)) for v in vals):
            vals = [as_array(I, v) for v in vals]
    t = I.to_tensor(a) if not isinstance(a, (PList, tuple)) else I.stack_values(vals)
    if dtype is not None:
        t = cast(I, t, to_dtype(I, dtype))
    return I.new(t) if t.rank else t


def symbolic_vector(I, l, dtype):
    """array of a list given by constants on consecutive ranges"""
    hook = getattr(I, 'symvec_hook', None)
    if hook is not None:
        r = hook(I, l, dtype)
        if r is not None:
            return r
    parts = []
    for e in l.entries:
        if e.guards or len(e.binders) > 1:
            raise Unknown('array of a filtered list')
        t = I.to_tensor(e.value)
        if not e.binders:
            parts.append(add_axis(t, 0))
            continue
        b = e.binders[0]
        seg = dim_axis(I, b.hi.add(b.lo, -1).simp())
        if len(seg) != 1:
            if _mentions(t, b.var):
                raise Unknown('range over several segments')
            for x in seg:
                parts.append(Tensor(((x,),) + t.axes, {(0,) + k: poly.pmap(p, lambda i: i + 1 if 0 <= i < 1000 else i)
                                                       for k, p in t.blocks.items()}, t.kind))
            continue
        m = {b.var: 0}
        parts.append(Tensor((seg,) + t.axes, {(0,) + k: poly.pmap(p, lambda i: i + 1 if 0 <= i < 1000 else m.get(i, i))
                                              for k, p in t.blocks.items()}, t.kind))
    t = concat(parts, 0)
    if dtype is not None:
        t = cast(I, t, to_dtype(I, dtype))
    return I.new(t)


def np_copy(I, a, order=None, **kw):
    if isinstance(a, Arr):
        r = a.read()
        if isinstance(r, Top):
            return Top(r.why)
        if a.root().logs:
            raise Unknown('copy while a symbolic loop is writing')
        return I.new(r)
    if isinstance(a, Tensor):
        return a
    return as_array(I, a)


def np_random(I, *shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, PList, ShapeTuple)):
        shape = shape[0]
    elif len(shape) == 0 or shape == (None,):
        I.loopvar += 1
        return T.sym_scalar('random#%d' % I.loopvar)
    axes = shape_axes(I, shape)
    I.loopvar += 1
    return I.new(T.atom_tensor('random#%d' % I.loopvar, axes, kind='f', real=True))


# ---------------------------------------------------------------- shape manipulation

def np_transpose(I, a, axes=None):
    if not isinstance(a, Arr):
        a = as_array(I, a)
        if isinstance(a, Top):
            return a
    return arr_transpose(I, a, *(() if axes is None else (axes,)))


def arr_transpose(I, a, *axes):
    t = a.read()
    if isinstance(t, Top):
        return Top(t.why)
    if not isinstance(t, Tensor):
        if hasattr(t, 'sa_transpose'):
            return t.sa_transpose(I, axes)
        raise Unknown('transpose')
    n = t.rank
    if len(axes) == 1 and axes[0] is None:
        axes = ()
    if len(axes) == 1 and isinstance(axes[0], (tuple, PList, range)):
        axes = tuple(axes[0].values()) if isinstance(axes[0], PList) else tuple(axes[0])
    if not axes:
        axes = tuple(range(n))[::-1]
    if not all(isinstance(x, int) for x in axes):
        raise Unknown('transpose axes')
    transpose(t, axes)      # raises on a malformed permutation
    return view_transpose(I, a, tuple(x % n for x in axes))


def np_swapaxes(I, a, i, j):
    t = I.to_tensor(a)
    perm = list(range(t.rank))
    perm[i], perm[j] = perm[j], perm[i]
    return arr_transpose(I, a, tuple(perm))


def np_moveaxis(I, a, src, dst):
    t = I.to_tensor(a)
    n = t.rank
    s = [src] if isinstance(src, int) else list(I.concrete_iter(src))
    d = [dst] if isinstance(dst, int) else list(I.concrete_iter(dst))
    s = [x % n for x in s]
    d = [x % n for x in d]
    order = [k for k in range(n) if k not in s]
    for dd, ss in sorted(zip(d, s)):
        order.insert(dd, ss)
    return arr_transpose(I, a, tuple(order))


def np_rollaxis(I, a, axis, start=0):
    t = I.to_tensor(a)
    n = t.rank
    axis %= n
    if axis < start:
        start -= 1
    order = [k for k in range(n) if k != axis]
    order.insert(start, axis)
    return arr_transpose(I, a, tuple(order))


def arr_reshape(I, a, *shape, **kw):
    if isinstance(a, Unshaped):
        return reshape_unshaped(I, a, shape)
    if len(shape) == 1 and isinstance(shape[0], (tuple, PList, ShapeTuple)):
        shape = tuple(shape[0].values()) if isinstance(shape[0], PList) else shape[0]
    if isinstance(a, Arr) and isinstance(a.read(), Flat):
        return reshape_flat(I, a.read(), shape)
    t = I.to_tensor(a)
    if I.small and all(s == ONE for x in t.axes for s in x):
        return reshape_elements(I, a, t, shape, kw.get('order'))
    if shape in ((-1,), [-1]):
        return np_ravel(I, a)
    if all(isinstance(x, (int, Dim)) for x in shape):
        real = [x for x in shape if x != 1]
        if not any(isinstance(x, int) and x == -1 for x in shape):
            # only insertion / removal of length-one axes, or identical
            cur = [x for x in t.shape() if x != 1]
            if len(cur) == len(real) and all(Dim.of(x) == Dim.of(y) for x, y in zip(cur, real)):
                r = t
                for k in range(r.rank - 1, -1, -1):
                    if r.axes[k] == (ONE,):
                        r = drop_axis(r, k)
                for k, x in enumerate(shape):
                    if x == 1:
                        r = add_axis(r, k)
                want = shape
                if r.axes == t.axes and isinstance(a, Arr):
                    return a
                if isinstance(a, Arr):
                    return reshape_view(I, a, t, r)
                return I.wrap(r)
            if len(cur) == len(real):
                raise SpaceError('reshape of axes (%s) to sizes (%s)' % (
                    ', '.join(axis_name(x) for x in t.axes), ', '.join(map(repr, shape))))
    raise Unknown('reshape')


def reshape_elements(I, a, t, shape, order=None):
    """reshape of an array all of whose elements are known one by one"""
    shape = [small_int(x) for x in shape]
    if order not in (None, 'C') or any(0 <= i < 1000 for p in t.blocks.values() for m in p for f in m for i in f[1:]):
        raise Unknown('reshape')
    old = [len(x) for x in t.axes]
    tot = 1
    for n in old:
        tot *= n
    if shape.count(-1) == 1:
        rest = 1
        for n in shape:
            if n != -1:
                rest *= n
        if rest and tot % rest == 0:
            shape[shape.index(-1)] = tot // rest
    new = 1
    for n in shape:
        new *= n
    from .interp import Raised
    if new != tot or any(n < 0 for n in shape):
        raise Raised('ValueError', I.loc, 'cannot reshape array of size %d into shape %r' % (tot, tuple(shape)))

    def move(b, old, new):
        blocks = {}
        for k, p in b.blocks.items():
            f = 0
            for n, x in zip(old, k):
                f = f * n + x
            kk = []
            for n in reversed(new):
                kk.append(f % n)
                f //= n
            blocks[tuple(reversed(kk))] = p
        return Tensor([(ONE,) * n for n in new], blocks, b.kind)

    def put(b, v):
        if not (isinstance(a, Arr) and a.base is None):
            raise Unknown('write through a reshaped view')
        return move(v, shape, old)
    if isinstance(a, Arr):
        return I.view(a, lambda b: move(b, old, shape), put)
    return I.wrap(move(t, old, shape))


def small_int(x):
    if isinstance(x, Dim):
        x = x.simp()
    if isinstance(x, Tensor) and not x.rank:
        p = x.scalar_poly()
        if not p:
            return 0
        if set(p) == {()} and p[()].denominator == 1:
            return int(p[()])
    if isinstance(x, int) and not isinstance(x, bool):
        return x
    raise Unknown('size')


def reshape_view(I, a, t, r):
    oldax = t.axes

    def get(b):
        for k in range(b.rank - 1, -1, -1):
            if b.axes[k] == (ONE,):
                b = drop_axis(b, k)
        for k, x in enumerate(r.axes):
            if x == (ONE,):
                b = add_axis(b, k)
        return b

    def put(b, new):
        for k in range(new.rank - 1, -1, -1):
            if new.axes[k] == (ONE,):
                new = drop_axis(new, k)
        for k, x in enumerate(oldax):
            if x == (ONE,):
                new = add_axis(new, k)
        return new
    return I.view(a, get, put)


class Flat(object):
    """one-dimensional array holding tensors one after another in C order"""
    def __init__(self, parts, kind):
        self.parts = list(parts)
        self.kind = kind


def np_ravel(I, a, order=None):
    if order not in (None, 'C'):
        raise Unknown('ravel order')
    if isinstance(a, Arr) and isinstance(a.read(), Flat):
        return a
    t = I.to_tensor(a)
    if t.rank == 1:
        return a
    if I.small and all(s == ONE for x in t.axes for s in x):
        return reshape_elements(I, a, t, (-1,))
    r = Arr(Flat([t], t.kind), depth=I.depth)
    if isinstance(a, Arr):
        # may share memory with its argument: writes through it are not followed
        r.origin = a.root().origin
    return r


def np_flatten(I, a, order=None):
    r = np_ravel(I, a, order)
    if isinstance(r, Arr) and isinstance(r.read(), Flat):
        return Arr(r.read(), depth=I.depth)
    return np_copy(I, r)


def reshape_flat(I, f, shape):
    if len(f.parts) != 1:
        raise Unknown('reshape of a composite vector')
    t = f.parts[0]
    if shape == (-1,):
        return Arr(f, depth=I.depth)
    if len(shape) == t.rank and all(isinstance(x, (int, Dim)) and Dim.of(x) == Dim.of(y) for x, y in zip(shape, t.shape())):
        return I.new(t)
    if len(shape) == t.rank and all(isinstance(x, (int, Dim)) and x != -1 for x in shape):
        raise SpaceError('vector of an array with axes (%s) reshaped to sizes (%s)' % (
            ', '.join(axis_name(x) for x in t.axes), ', '.join(map(repr, shape))))
    raise Unknown('reshape')


def reshape_unshaped(I, a, shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, PList, ShapeTuple)):
        shape = tuple(shape[0].values()) if isinstance(shape[0], PList) else shape[0]
    t = a.tensor
    want = t.shape()
    shape = list(shape)
    if len(shape) == len(want) and sum(1 for x in shape if isinstance(x, int) and x == -1) == 1:
        k = [isinstance(x, int) and x == -1 for x in shape].index(True)
        shape[k] = want[k]
    if len(shape) != len(want):
        raise Unknown('reshape of transformed integrals to rank %d' % len(shape))
    for x, y in zip(shape, want):
        if not isinstance(x, (int, Dim)):
            raise Unknown('reshape size')
        if Dim.of(x) != Dim.of(y):
            raise SpaceError('transformed integrals with axes (%s) reshaped to (%s)' % (
                ', '.join(axis_name(z) for z in t.axes), ', '.join(repr(z) for z in shape)))
    return I.new(t)


def np_concatenate(I, arrs, axis=0, **kw):
    if axis is None:
        raise Unknown('concatenate axis None')
    vals = I.concrete_iter(arrs)
    if any(isinstance(v, Arr) and isinstance(v.read(), Flat) for v in vals):
        parts = []
        kind = 'b'
        for v in vals:
            r = v.read() if isinstance(v, Arr) else None
            if isinstance(r, Flat):
                parts += r.parts
                kind = kjoin(kind, r.kind)
            elif isinstance(r, Tensor) and r.rank == 1:
                parts.append(r)
                kind = kjoin(kind, r.kind)
            else:
                raise Unknown('concatenation')
        return Arr(Flat(parts, kind), depth=I.depth)
    ts = [I.to_tensor(v) for v in vals]
    return I.new(concat(ts, axis))


def np_hstack(I, arrs, **kw):
    ts = I.concrete_iter(arrs)
    if any(isinstance(v, Arr) and isinstance(v.read(), Flat) for v in ts):
        return np_concatenate(I, arrs)
    rank = I.to_tensor(ts[0]).rank
    return np_concatenate(I, arrs, 0 if rank == 1 else 1)


def np_vstack(I, arrs, **kw):
    ts = [I.to_tensor(v) for v in I.concrete_iter(arrs)]
    ts = [add_axis(t, 0) if t.rank == 1 else t for t in ts]
    return I.new(concat(ts, 0))


def np_stack(I, arrs, axis=0, **kw):
    ts = [I.to_tensor(v) for v in I.concrete_iter(arrs)]
    n = ts[0].rank + 1
    return I.new(concat([add_axis(t, axis % n) for t in ts], axis))


def np_block(I, rows):
    rows = I.concrete_iter(rows)
    if rows and isinstance(rows[0], PList):
        return np_concatenate(I, tuple(np_concatenate(I, r, -1) for r in rows), 0)
    return np_concatenate(I, tuple(rows), -1)


def np_expand_dims(I, a, axis):
    t = I.to_tensor(a)
    n = t.rank + 1
    axis %= n
    idx = tuple(None if k == axis else slice(None) for k in range(n))
    return I.arr_getitem(a, idx)


def np_squeeze(I, a, axis=None):
    t = I.to_tensor(a)
    r = t
    for k in range(t.rank - 1, -1, -1):
        if t.axes[k] == (ONE,) and (axis is None or axis % t.rank == k):
            r = drop_axis(r, k)
    return I.wrap(r)


def np_broadcast_to(I, a, shape):
    t = I.to_tensor(a)
    return I.new(T.expand(t, shape_axes(I, shape)))


# ---------------------------------------------------------------- products and sums

def np_dot(I, a, b, out=None):
    for x in (a, b):
        if isinstance(x, Arr) and hasattr(x.read(), 'sa_dot'):
            return x.read().sa_dot(I, a, b)
    if isinstance(a, Arr) and isinstance(b, Arr) and isinstance(a.read(), Flat) and isinstance(b.read(), Flat):
        return flat_dot(I, a.read(), b.read())
    ta, tb = I.to_tensor(a), I.to_tensor(b)
    if ta.rank == 0 or tb.rank == 0:
        return I.wrap(mul(ta, tb))
    if tb.rank == 1:
        la = 'abcdefgh'[:ta.rank]
        return I.wrap(einsum('%s,%s->%s' % (la, la[-1], la[:-1]), [ta, tb]))
    la = 'abcdefgh'[:ta.rank]
    lb = 'mnopqrst'[:tb.rank]
    lb = lb[:-2] + la[-1] + lb[-1]
    return I.wrap(einsum('%s,%s->%s%s' % (la, lb, la[:-1], lb[:-2] + lb[-1]), [ta, tb]))


def flat_dot(I, f, g):
    if len(f.parts) != len(g.parts):
        raise Unknown('dot of vectors')
    r = const(0)
    for a, b in zip(f.parts, g.parts):
        if a.axes != b.axes:
            raise Unknown('dot of vectors with different layout')
        l = 'abcdefgh'[:a.rank]
        r = add(r, einsum('%s,%s->' % (l, l), [a, b]))
    return r


def np_vdot(I, a, b):
    ta, tb = I.to_tensor(a), I.to_tensor(b)
    la = 'abcdefgh'[:ta.rank]
    return I.wrap(einsum('%s,%s->' % (la, la), [conj(ta), tb]))


def np_inner(I, a, b):
    ta, tb = I.to_tensor(a), I.to_tensor(b)
    la = 'abcdefgh'[:ta.rank]
    lb = 'mnopqrst'[:tb.rank]
    lb = lb[:-1] + la[-1]
    return I.wrap(einsum('%s,%s->%s%s' % (la, lb, la[:-1], lb[:-1]), [ta, tb]))


def np_outer(I, a, b):
    return I.wrap(einsum('i,j->ij', [I.to_tensor(a), I.to_tensor(b)]))


def np_tensordot(I, a, b, axes=2):
    ta, tb = I.to_tensor(a), I.to_tensor(b)
    if isinstance(axes, int):
        xa = list(range(ta.rank - axes, ta.rank))
        xb = list(range(axes))
    else:
        x, y = I.concrete_iter(axes)
        xa = [x] if isinstance(x, int) else I.concrete_iter(x)
        xb = [y] if isinstance(y, int) else I.concrete_iter(y)
    xa = [k % ta.rank for k in xa]
    xb = [k % tb.rank for k in xb]
    la = list('abcdefgh'[:ta.rank])
    lb = list('mnopqrst'[:tb.rank])
    for p, q in zip(xa, xb):
        lb[q] = la[p]
    out = [c for k, c in enumerate(la) if k not in xa] + [c for k, c in enumerate(lb) if k not in xb]
    return I.wrap(einsum('%s,%s->%s' % (''.join(la), ''.join(lb), ''.join(out)), [ta, tb]))


def np_matmul(I, a, b):
    return I.wrap(I.matmul(I.to_tensor(a), I.to_tensor(b)))


def np_sum(I, a, axis=None, dtype=None, keepdims=False, out=None):
    if isinstance(a, Arr) and hasattr(a.read(), 'sa_sum'):
        return a.read().sa_sum(I, a, axis)
    if isinstance(a, PList) and not a.concrete():
        return b_sum(I, a)
    t = I.to_tensor(a)
    if axis is None:
        return T.sum_all(t)
    ax = [axis] if isinstance(axis, int) else list(I.concrete_iter(axis))
    ax = sorted((k % t.rank for k in ax), reverse=True)
    for k in ax:
        t = T.sum_axis(t, k)
    if keepdims:
        for k in sorted(ax):
            t = add_axis(t, k)
    return I.wrap(t)


def np_trace(I, a, *rest, **kw):
    t = I.to_tensor(a)
    if rest or kw:
        raise Unknown('trace')
    l = 'abcdefgh'[:t.rank - 2]
    return I.wrap(einsum('ii%s->%s' % (l, l), [t]))


def np_diagonal(I, a, *rest, **kw):
    t = I.to_tensor(a)
    if rest or kw or t.rank != 2:
        raise Unknown('diagonal')
    return I.wrap(einsum('ii->i', [t]))


def np_diag(I, a, k=0):
    t = I.to_tensor(a)
    if k:
        raise Unknown('diag')
    if t.rank == 2:
        return np_diagonal(I, a)
    ax = t.axes[0]
    return I.new(einsum('ij,j->ij', [delta(ax, t.kind), t]))


def np_conj(I, a, out=None):
    if isinstance(a, (int, float, Fraction)):
        return a
    if isinstance(a, Arr) and hasattr(a.read(), 'sa_conj'):
        return a.read().sa_conj(I)
    if isinstance(a, Unshaped):
        return Unshaped(conj(a.tensor))
    return I.wrap(conj(I.to_tensor(a)))


def np_real(I, a):
    if isinstance(a, (int, float, Fraction)):
        return a
    t = I.to_tensor(a)
    if t.kind != 'c':
        return a
    I.loss_events.append((I.loc, 'c', 'f'))
    return I.wrap(lossy('real', t, 'f'))


def np_imag(I, a):
    t = I.to_tensor(a)
    if t.kind != 'c':
        return I.wrap(T.zeros(t.axes, t.kind))
    return I.wrap(lossy('imag', t, 'f'))


def ufunc2(op):
    def f(I, a, b, out=None, **kw):
        if kw:
            raise Unknown('ufunc keywords')
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            r = I.binop(op, a, b)
            if not isinstance(out, Arr):
                raise Unknown('out=')
            if isinstance(r, Top):
                I.write(out, r)
                return out
            t = I.to_tensor(r)
            cur = I.to_tensor(out)
            t = T.expand(t, cur.axes)
            if KINDS[t.kind] > KINDS[cur.kind]:
                from .interp import AbsError
                raise AbsError('ufunc output cannot be cast to a narrower array', I.loc)
            I.write(out, Tensor(t.axes, t.blocks, cur.kind))
            return out
        return I.binop(op, as_array(I, a) if isinstance(a, (PList, tuple)) else a,
                       as_array(I, b) if isinstance(b, (PList, tuple)) else b)
    return f


def unary_fn(name):
    zero = {'exp': 1, 'sin': 0, 'cos': 1, 'tan': 0, 'log1p': 0, 'expm1': 0, 'sqrt': 0, 'tanh': 0, 'sinh': 0,
            'cosh': 1, 'arctan': 0, 'cbrt': 0, 'exp2': 1}.get(name)

    def f(I, a, out=None, **kw):
        if hasattr(a, 'sa_fn'):
            return a.sa_fn(I, name)
        if isinstance(a, Arr) and hasattr(a.read(), 'sa_fn'):
            return a.read().sa_fn(I, name)
        if name in ('conj', 'conjugate'):
            return np_conj(I, a)
        if name == 'negative':
            return I.unary('USub', a)
        if name == 'positive':
            return a
        if name == 'square':
            return I.binop('Mult', a, a)
        if name == 'reciprocal':
            return I.binop('Div', 1.0, a)
        if isinstance(a, (int, float)) and not isinstance(a, bool):
            import math
            if name in ('exp', 'log', 'sqrt', 'log1p', 'expm1', 'sin', 'cos', 'tanh'):
                return getattr(math, name)(a)
        t = I.to_tensor(a)
        return I.wrap(elementwise(name, t, kjoin(t.kind, 'f'), zero))
    return f


def exact_abs(I, t):
    """absolute value block by block where it is decided: constants and multiples of occupations"""
    blocks = {}
    for k, p in t.blocks.items():
        if len(p) > 1 or any(f[0] not in I.bit_atoms for m in p for f in m):
            return None
        blocks[k] = {m: abs(c) for m, c in p.items()}
    return Tensor(t.axes, blocks, t.kind)


def lossy_fn(name):
    def f(I, a, *rest, **kw):
        if hasattr(a, 'sa_fn'):
            return a.sa_fn(I, name)
        if isinstance(a, Arr) and hasattr(a.read(), 'sa_fn'):
            return a.read().sa_fn(I, name)
        if isinstance(a, (int, float)) and not rest and name in ('abs', 'absolute', 'fabs'):
            return abs(a)
        t = I.to_tensor(a)
        if name in ('abs', 'absolute', 'fabs') and not rest:
            e = exact_abs(I, t)
            if e is not None:
                return I.wrap(e)
        return I.wrap(lossy('%s%s' % (name, ''.join(',%r' % (x,) for x in rest if isinstance(x, (int, float)))), t, t.kind))
    return f


class Flags(object):
    """memory layout of an array: that of an argument may be anything"""
    def __init__(self, origin):
        self.origin = origin

    def sa_getattr(self, I, name):
        if self.origin and name.lower() in ('c_contiguous', 'f_contiguous', 'contiguous', 'forc', 'fortran', 'aligned'):
            return Cond(('layout', self.origin, name.lower().replace('c_contiguous', 'contiguous')))
        return I.unknown_cond('array flags')

    def sa_getitem(self, I, name):
        return self.sa_getattr(I, str(name))


def arr_attr_size(I, t):
    r = 1
    for d in t.shape():
        r = I.binop('Mult', r, d)
    return r


def elements(move):
    """functions that move or drop elements, known where every element is one of its own"""
    def f(I, a, *args, **kw):
        t = I.to_tensor(a)
        if any(s != ONE for x in t.axes for s in x) or not t.rank or not all(v is None or isinstance(v, int) for v in list(args) + list(kw.values())):
            raise Unknown('elements moved')
        old = [len(x) for x in t.axes]
        blocks = {}
        for key in itertools.product(*[range(n) for n in old]):
            p = {}
            for q in move(key, old, *args, **kw):
                p = poly.padd(p, t.blocks.get(q, {}))
            blocks[key] = p
        return I.new(Tensor(t.axes, blocks, t.kind))
    return f


def m_triangle(lower):
    def f(key, n, k=0):
        if len(n) < 2:
            raise Unknown('triangle')
        return [key] if (key[-1] <= key[-2] + k if lower else key[-1] >= key[-2] + k) else []
    return f


def m_flip(key, n, axis=None):
    ax = range(len(n)) if axis is None else [axis % len(n)]
    return [tuple(n[j] - 1 - x if j in ax else x for j, x in enumerate(key))]


def m_roll(key, n, shift, axis=None):
    if axis is None:
        raise Unknown('roll')
    return [tuple((x - shift) % n[j] if j == axis % len(n) else x for j, x in enumerate(key))]


def m_cumsum(key, n, axis=None):
    if axis is None and len(n) > 1:
        raise Unknown('cumsum')
    j = (axis or 0) % len(n)
    return [key[:j] + (x,) + key[j + 1:] for x in range(key[j] + 1)]


def np_real_if_close(I, a, *r, **k):
    if I.to_tensor(a).kind == 'c':
        raise Unknown('real_if_close')
    return a


def extreme(name):
    def f(I, a, axis=None, out=None, **kw):
        t = I.to_tensor(a)
        if axis is not None or out is not None or kw:
            raise Unknown(name)
        if not t.rank:
            return a
        if len(t.blocks) == 1 and t.rank and all(len(x) == 1 for x in t.axes):
            s = poly.show(next(iter(t.blocks.values())))
        else:
            s = ';'.join('%r:%s' % (k, poly.show(p)) for k, p in sorted(t.blocks.items()))
        if not any(t.blocks.values()):
            return const(0)
        return T.sym_scalar('%s<%s>' % (name, s))
    return f


def np_where(I, c, *ab):
    if not ab:
        return np_nonzero(I, c)
    a, b = ab
    if isinstance(c, Arr):
        from .interp import Mask
        m = c.read()
        if isinstance(m, Mask):
            ta, tb = I.to_tensor(a), I.to_tensor(b)
            ta, tb = T.expand(ta, m.axes), T.expand(tb, m.axes)
            blocks = {}
            for k, v in m.vals.items():
                blocks[k] = (ta if v else tb).blocks.get(k, {})
            return I.new(Tensor(m.axes, blocks, kjoin(ta.kind, tb.kind)))
    try:
        ta = I.to_tensor(a)
        tb = I.to_tensor(b)
    except Unknown:
        raise
    big = ta if ta.rank >= tb.rank else tb
    if big.rank:
        I.loopvar += 1
        return I.wrap(lossy('where#%d' % I.loopvar, T.full(big.axes, 1, 'f'), kjoin(ta.kind, tb.kind)))
    raise Unknown('where')


def np_nonzero(I, a):
    from .interp import Mask, IndexArr
    if hasattr(a, 'sa_nonzero'):
        return a.sa_nonzero(I)
    if isinstance(a, PList):
        hook = getattr(I, 'nonzero_hook', None)
        if hook is not None:
            r = hook(I, a)
            if r is not None:
                return r
        a = as_array(I, a)
    if isinstance(a, Arr):
        m = a.read()
        if isinstance(m, Tensor):
            m = I.array_compare('NotEq', a, 0)
            if isinstance(m, Arr) and isinstance(m.read(), Tensor) and m.read().rank == 1:
                return (I.evaluate('[i for i, x in enumerate(a) if x]', a=m),)
            m = m.read() if isinstance(m, Arr) else m
        if isinstance(m, Mask) and len(m.axes) == 1:
            ax = m.axes[0]
            segs = [k for k in range(len(ax)) if m.vals[(k,)]]
            return (Arr(IndexArr(ax, segs), depth=I.depth),)
        if hasattr(m, 'sa_nonzero'):
            return m.sa_nonzero(I)
    raise Unknown('nonzero')


def np_count_nonzero(I, a, axis=None):
    if isinstance(a, PList):
        a = as_array(I, a)
    if isinstance(a, Arr) and isinstance(a.read(), Tensor):
        t = a.read()
        if t.kind != 'b':
            m = I.array_compare('NotEq', a, 0)
            if m is None:
                raise Unknown('count_nonzero')
            a = m
    return np_sum(I, a, axis)


def np_norm(I, a, *rest, **kw):
    t = I.to_tensor(a)
    I.loopvar += 1
    if not t.blocks:
        return const(0)
    return T.sym_scalar('norm#%d' % I.loopvar)


def np_cond(I, *a, **kw):
    return I.unknown_cond('numpy test')


def np_array_equal(I, a, b, **kw):
    hook = getattr(I, 'array_equal_hook', None)
    if hook is not None:
        r = hook(I, a, b)
        if r is not None:
            return r
    return I.unknown_cond('array_equal')


def np_iscomplexobj(I, a):
    if isinstance(a, Unshaped):
        return a.tensor.kind == 'c'
    if isinstance(a, Arr) and isinstance(a.read(), Tensor):
        return a.read().kind == 'c'
    return I.to_tensor(a).kind == 'c'


def np_isrealobj(I, a):
    return not np_iscomplexobj(I, a)


def np_result_type(I, *args):
    ks = []
    for a in args:
        if isinstance(a, Unshaped):
            ks.append(a.tensor.kind)
        elif isinstance(a, (Arr, Tensor)):
            t = a.read() if isinstance(a, Arr) else a
            if isinstance(t, Top):
                raise Unknown(t.why)
            ks.append(t.kind)
        elif isinstance(a, bool):
            ks.append('b')
        elif isinstance(a, (int, Dim)):
            ks.append('i')
        elif isinstance(a, float):
            ks.append('f')
        else:
            ks.append(to_dtype(I, a).kind)
    return DType(kjoin(*ks))


def np_shape(I, a):
    return I.getattr(a, 'shape')


def np_ndim(I, a):
    return I.to_tensor(a).rank


def np_isscalar(I, a):
    return isinstance(a, (int, float, str, Fraction)) or isinstance(a, Tensor) and a.rank == 0


def np_issubdtype(I, a, b):
    d = to_dtype(I, a)
    n = b.path.split('.')[-1] if isinstance(b, Ext) else str(b)
    if n in ('complexfloating', 'complex', 'complex128'):
        return d.kind == 'c'
    if n in ('floating', 'float64', 'float'):
        return d.kind == 'f'
    if n in ('integer', 'int', 'signedinteger'):
        return d.kind == 'i'
    if n in ('inexact',):
        return d.kind in 'fc'
    raise Unknown('issubdtype')


def np_copyto(I, dst, src, **kw):
    I.arr_setitem(dst, (Ellipsis,), src)
    return None


def np_arange(I, *a, **kw):
    if len(a) == 1 and isinstance(a[0], int):
        return I.new(I.stack_values(list(range(a[0])))) if a[0] else I.new(Tensor(((),), {}, 'i'))
    if len(a) == 1:
        return b_range(I, a[0])
    if len(a) == 2 and any(isinstance(x, Dim) for x in a):
        return b_range(I, *a)
    if all(isinstance(x, int) for x in a):
        return I.new(I.stack_values(list(range(*a))))
    raise Unknown('arange')


def ints(I, shape, vals):
    t = Tensor([(ONE,) * n for n in shape], {}, 'i')
    for k, v in zip(itertools.product(*[range(n) for n in shape]), vals):
        t.blocks[k] = {(): Fraction(v)} if v else {}
    return I.new(t)


def np_pad(I, a, width, mode='constant', constant_values=0, **kw):
    t = I.to_tensor(a)
    if mode != 'constant' or constant_values != 0 or kw:
        raise Unknown('pad')
    w = width if isinstance(width, (int, Dim)) else I.concrete_iter(width)
    if isinstance(w, (int, Dim)):
        w = [(w, w)] * t.rank
    elif all(isinstance(x, (int, Dim)) for x in w):
        if len(w) != 2:
            raise Unknown('pad widths')
        w = [tuple(w)] * t.rank
    else:
        w = [tuple(I.concrete_iter(x)) for x in w]
        if len(w) == 1:
            w = w * t.rank
    if len(w) != t.rank or any(len(x) != 2 for x in w):
        raise Unknown('pad widths')
    for k, x in enumerate(w):
        parts = [t]
        for n, first in ((x[0], True), (x[1], False)):
            if n != 0:
                axes = list(t.axes)
                axes[k], = shape_axes(I, (n,))
                parts.insert(0 if first else len(parts), T.zeros(axes, t.kind))
        t = concat(parts, k) if len(parts) > 1 else t
    return I.new(t)


def ufunc_outer(op):
    def f(I, a, b):
        ta, tb = I.to_tensor(a), I.to_tensor(b)
        for _ in range(tb.rank):
            ta = add_axis(ta, ta.rank)
        return I.binop(op, I.new(ta), I.wrap(tb))
    return f


def np_fromiter(I, it, dtype=None, count=-1, **kw):
    v = I.iterate(it)
    if any(isinstance(x, Gen) for x in v):
        raise Unknown('fromiter')
    return as_array(I, I.plist(v), to_dtype(I, dtype, 'f'))


def np_ix(I, *a):
    from .interp import SymRange, Ix
    if any(isinstance(x, SymRange) for x in a) and all(isinstance(x, SymRange) or isinstance(x, range) and x.step == 1
                                                       for x in a):
        return Ix(slice(x.lo.simp(), x.hi.simp()) if isinstance(x, SymRange) else slice(x.start, x.stop) for x in a)
    out = []
    for k, x in enumerate(a):
        x = list(x) if isinstance(x, range) else None if not isinstance(x, (Arr, PList)) else (I.int_array(x) or (0, None))[1]
        if x is None:
            raise Unknown('ix_')
        out.append(ints(I, [len(x) if j == k else 1 for j in range(len(a))], x))
    return tuple(out)


def triangle(lower):
    def f(I, n, k=0, m=None):
        n, k, m = small_int(n), small_int(k), small_int(n if m is None else m)
        p = [(i, j) for i in range(n) for j in range(m) if (j <= i + k if lower else j >= i + k)]
        return ints(I, [len(p)], [i for i, j in p]), ints(I, [len(p)], [j for i, j in p])
    return f


def np_diag_indices(I, n, ndim=2):
    n = small_int(n)
    return tuple(ints(I, [n], list(range(n))) for _ in range(ndim))


def np_ndindex(I, *a):
    s = I.concrete_iter(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, PList)) else list(a)
    return PList(list(itertools.product(*[range(small_int(x)) for x in s])))


def np_iscomplex(I, a):
    return I.unknown_cond('iscomplex')


def np_allclose(I, *a, **kw):
    return I.unknown_cond('allclose')


def np_multidot(I, arrs):
    vals = I.concrete_iter(arrs)
    r = vals[0]
    for v in vals[1:]:
        r = np_dot(I, r, v)
    return r


def np_kron(I, a, b):
    raise Unknown('kron')


def np_take(I, a, idx, axis=None, **kw):
    if axis is None:
        raise Unknown('take')
    t = I.to_tensor(a)
    return I.arr_getitem(a, tuple(idx if k == axis % t.rank else slice(None) for k in range(t.rank)))


def np_split(I, *a, **kw):
    raise Unknown('split')


def np_prod(I, a, **kw):
    if isinstance(a, (tuple, PList)):
        r = 1
        for v in I.concrete_iter(a):
            r = I.binop('Mult', r, v)
        return r
    raise Unknown('prod')


NUMPY = {
    'einsum': np_einsum, 'zeros': np_zeros, 'ones': np_ones, 'full': np_full, 'empty': np_empty,
    'zeros_like': np_zeros_like, 'ones_like': np_ones_like, 'empty_like': np_empty_like, 'full_like': np_full_like,
    'eye': np_eye, 'identity': np_eye, 'array': np_array, 'asarray': lambda I, a, dtype=None, **kw: as_array(I, a, dtype),
    'ascontiguousarray': lambda I, a, dtype=None: as_array(I, a, dtype), 'asanyarray': lambda I, a, dtype=None: as_array(I, a, dtype),
    'asfortranarray': lambda I, a, dtype=None: as_array(I, a, dtype), 'require': lambda I, a, *r, **k: as_array(I, a),
    'copy': np_copy, 'dot': np_dot, 'vdot': np_vdot, 'inner': np_inner, 'outer': np_outer, 'tensordot': np_tensordot,
    'matmul': np_matmul, 'sum': np_sum, 'trace': np_trace, 'diagonal': np_diagonal, 'diag': np_diag,
    'conj': np_conj, 'conjugate': np_conj, 'real': np_real, 'imag': np_imag, 'transpose': np_transpose,
    'swapaxes': np_swapaxes, 'moveaxis': np_moveaxis, 'rollaxis': np_rollaxis,
    'reshape': lambda I, a, shape, *r, **k: arr_reshape(I, a, shape), 'ravel': np_ravel,
    'concatenate': np_concatenate, 'hstack': np_hstack, 'vstack': np_vstack, 'stack': np_stack, 'block': np_block,
    'expand_dims': np_expand_dims, 'squeeze': np_squeeze, 'broadcast_to': np_broadcast_to,
    'add': ufunc2('Add'), 'subtract': ufunc2('Sub'), 'multiply': ufunc2('Mult'), 'divide': ufunc2('Div'),
    'true_divide': ufunc2('Div'), 'power': ufunc2('Pow'), 'where': np_where, 'nonzero': np_nonzero,
    'count_nonzero': np_count_nonzero,
    'flatnonzero': lambda I, a: np_nonzero(I, a)[0], 'linalg.norm': np_norm, 'array_equal': np_array_equal,
    'allclose': np_allclose, 'iscomplexobj': np_iscomplexobj, 'isrealobj': np_isrealobj,
    'result_type': np_result_type, 'promote_types': np_result_type, 'common_type': np_result_type,
    'find_common_type': lambda I, a, b: np_result_type(I, *(I.concrete_iter(a) + I.concrete_iter(b))),
    'shape': np_shape, 'ndim': np_ndim, 'isscalar': np_isscalar, 'issubdtype': np_issubdtype, 'copyto': np_copyto,
    'arange': np_arange, 'tril_indices': triangle(True), 'triu_indices': triangle(False), 'ndindex': np_ndindex,
    'diag_indices': np_diag_indices, 'ix_': np_ix, 'linalg.multi_dot': np_multidot, 'take': np_take, 'prod': np_prod, 'product': np_prod,
    'dtype': lambda I, d: to_dtype(I, d), 'any': np_cond, 'all': np_cond, 'isfinite': np_cond, 'isnan': np_cond,
    'size': lambda I, a: I.getattr(a, 'size'), 'seterr': lambda I, **k: None,
    'random.random': np_random, 'random.rand': lambda I, *s: np_random(I, *s), 'random.random_sample': np_random,
    'random.ranf': np_random, 'random.sample': np_random, 'random.randn': lambda I, *s: np_random(I, *s),
    'random.uniform': lambda I, lo=0.0, hi=1.0, size=None: np_random(I, size),
    'random.normal': lambda I, lo=0.0, hi=1.0, size=None: np_random(I, size),
    'random.standard_normal': lambda I, size=None: np_random(I, size), 'random.seed': lambda I, *a: None,
}
for _n, _op in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div')):
    NUMPY[_n + '.outer'] = ufunc_outer(_op)
NUMPY.update({'pad': np_pad, 'fromiter': np_fromiter})
NUMPY.update({'tril': elements(m_triangle(True)), 'triu': elements(m_triangle(False)), 'flip': elements(m_flip),
              'flipud': elements(lambda k, n: m_flip(k, n, 0)), 'fliplr': elements(lambda k, n: m_flip(k, n, 1)),
              'roll': elements(m_roll), 'cumsum': elements(m_cumsum), 'nan_to_num': lambda I, a, *r, **k: np_copy(I, a),
              'real_if_close': np_real_if_close, 'max': extreme('max'), 'amax': extreme('max'), 'min': extreme('min'),
              'amin': extreme('min')})
for _n in LOSSY:
    NUMPY[_n] = lossy_fn(_n)


def np_sort(I, a, *rest, **kw):
    t = I.to_tensor(a)
    if not t.rank or t.kind not in 'fc' or not any(f[0] != poly.SGN for p in t.blocks.values() for m in p for f in m):
        raise Unknown('sort')
    return lossy_fn('sort')(I, a)


NUMPY['sort'] = np_sort
for _n in UNARY:
    NUMPY.setdefault(_n, unary_fn(_n))


# ---------------------------------------------------------------- array methods and attributes

def arr_attr(I, a, name):
    t = a.read()
    if name == 'sa_':
        return None
    if isinstance(t, Top):
        if name in MUTATORS:
            return Native(name, lambda I, *x, **k: _mutate(I, a))
        return Top(t.why)
    if not isinstance(t, Tensor):
        if hasattr(t, 'sa_arrattr'):
            return t.sa_arrattr(I, a, name)
        from .interp import Mask, IndexArr
        if isinstance(t, Mask):
            if name in ('any', 'all'):
                return Native(name, lambda I, *x, **k: getattr(t, name)(I) if not x and not k else Top(name))
            if name in ('shape', 'ndim', 'size', 'dtype', 'sum', 'astype', 'copy', 'dot', 'T', 'transpose'):
                return arr_attr(I, Arr(t.tensor(), depth=I.depth), name)
        if isinstance(t, Flat):
            if name == 'shape':
                return (Top('size of a flattened array'),)
            if name == 'dtype':
                return DType(t.kind)
            if name in ('reshape',):
                return Native('reshape', lambda I, *s, **k: arr_reshape(I, a, *s))
            if name in ('copy', 'flatten', 'ravel'):
                return Native(name, lambda I, *s, **k: Arr(t, depth=I.depth))
            if name == 'dot':
                return Native(name, lambda I, b: np_dot(I, a, b))
            if name == 'ndim':
                return 1
        if isinstance(t, IndexArr) and name == 'size':
            d = Dim()
            for k in t.segs:
                d = d.add(Dim.sp(t.axis[k]))
            return d.simp()
        raise Unknown('array attribute %s' % name)
    if name == 'shape':
        return make_shape(t.axes)
    if name == 'ndim':
        return t.rank
    if name == 'dtype':
        return DType(t.kind)
    if name == 'T':
        return arr_transpose(I, a)
    if name == 'size':
        r = 1
        for d in t.shape():
            r = I.binop('Mult', r, d)
        return r
    if name == 'nbytes':
        return I.binop('Mult', 16 if t.kind == 'c' else 8, arr_attr_size(I, t))
    if name == 'itemsize':
        return 16 if t.kind == 'c' else 8
    if name == 'flags':
        return Flags(a.root().origin)
    if name == 'real':
        if t.kind != 'c':
            return a
        I.loss_events.append((I.loc, 'c', 'f'))
        return I.wrap(lossy('real', I.to_tensor(a), 'f'))
    if name == 'imag':
        return np_imag(I, a)
    if name == 'flat':
        raise Unknown('flat')
    if name in METHODS:
        return Native(name, METHODS[name], a)
    if name == 'H':
        return np_conj(I, arr_transpose(I, a))
    raise Unknown('array attribute %s' % name)


MUTATORS = ('fill', 'sort', 'resize', 'itemset', 'put', 'partition', 'setfield', 'byteswap')


def _mutate(I, a):
    if a.root().origin:
        I.effect(a.root().origin, 'array modified in place')
    return None


def m_fill(I, a, v):
    cur = a.read()
    t = T.expand(I.to_tensor(v), cur.axes)
    I.write(a, Tensor(cur.axes, t.blocks, cur.kind))
    return None


def m_astype(I, a, dtype, *r, **kw):
    if to_dtype(I, dtype).kind == 'b' and isinstance(a, Arr):
        m = I.array_compare('NotEq', a, 0)
        if m is not None:
            return m
    return I.new(cast(I, I.to_tensor(a), to_dtype(I, dtype)))


def m_mutator(I, a, *r, **k):
    _mutate(I, a)
    I.write(a, Top('in-place method'))
    return None


METHODS = {
    'copy': np_copy, 'transpose': arr_transpose, 'reshape': arr_reshape, 'astype': m_astype, 'conj': np_conj,
    'conjugate': np_conj, 'sum': np_sum, 'dot': np_dot, 'fill': m_fill, 'ravel': np_ravel, 'flatten': np_flatten,
    'swapaxes': np_swapaxes, 'trace': np_trace, 'diagonal': np_diagonal, 'squeeze': np_squeeze,
    'round': lossy_fn('round'), 'clip': lossy_fn('clip'), 'sort': m_mutator, 'resize': m_mutator,
    'itemset': m_mutator, 'put': m_mutator, 'any': np_cond, 'all': np_cond, 'nonzero': np_nonzero, 'take': np_take,
    'max': extreme('max'), 'min': extreme('min'),
    'item': lambda I, a, *r: _item(I, a, r), 'tolist': lambda I, a: I.plist(I.concrete_iter(a)),
    'view': lambda I, a, *r: a if not r else Top('view'),
    'mean': lossy_fn('mean'),
}


def _item(I, a, r):
    t = I.to_tensor(a)
    if r:
        return I.getitem(a, tuple(r))
    while t.rank and t.axes[0] == (ONE,):
        t = drop_axis(t, 0)
    if t.rank:
        raise Unknown('item')
    return t


# ---------------------------------------------------------------- attributes of other values

def value_attr(I, o, name):
    if isinstance(o, Arr):
        return arr_attr(I, o, name)
    if isinstance(o, Unshaped):
        if name == 'reshape':
            return Native('reshape', lambda I, *s, **k: reshape_unshaped(I, o, s))
        if name == 'dtype':
            return DType(o.tensor.kind)
        if name == 'conj':
            return Native('conj', lambda I: Unshaped(conj(o.tensor)))
        if name == 'copy':
            return Native('copy', lambda I: o)
        raise Unknown('attribute %s of transformed integrals' % name)
    if isinstance(o, Tensor):
        if name in ('copy', 'item', '__pos__'):
            return Native(name, lambda I, *a: o)
        if name in ('conj', 'conjugate'):
            return Native(name, lambda I, *a: np_conj(I, o))
        if name == 'real':
            return np_real(I, o)
        if name == 'imag':
            return np_imag(I, o)
        if name == 'dtype':
            return DType(o.kind)
        if name == 'shape':
            return ()
        if name == 'ndim':
            return 0
        if name == 'sum':
            return Native(name, lambda I, *a: o)
        if name == 'astype':
            return Native(name, lambda I, d, **k: cast(I, o, to_dtype(I, d)))
        raise Unknown('attribute %s of a scalar' % name)
    if isinstance(o, (int, float, Fraction)):
        if name in ('conj', 'conjugate', 'copy', 'item'):
            return Native(name, lambda I, *a: o)
        if name == 'real':
            return o
        if name == 'imag':
            return 0
        raise Unknown('attribute %s of a number' % name)
    if isinstance(o, DType):
        if name == 'kind':
            return o.kind
        if name in ('name',):
            return {'f': 'float64', 'c': 'complex128', 'i': 'int64', 'b': 'bool'}[o.kind]
        if name == 'type':
            return o
        if name == 'char':
            return {'f': 'd', 'c': 'D', 'i': 'l', 'b': '?'}[o.kind]
        raise Unknown('dtype attribute')
    if isinstance(o, PList):
        f = LISTM.get(name)
        if f:
            return Native(name, f, o)
        raise Unknown('list method %s' % name)
    if isinstance(o, PDict):
        f = DICTM.get(name)
        if f:
            return Native(name, f, o)
        raise Unknown('dict method %s' % name)
    if isinstance(o, str):
        return Native(name, lambda I, *a, **k: str_method(I, o, name, a, k))
    if isinstance(o, tuple):
        if name == 'index':
            return Native(name, lambda I, x: l_index(I, PList(o), x))
        if name == 'count':
            return Native(name, lambda I, x: l_count(I, PList(o), x))
        raise Unknown('tuple attribute')
    if isinstance(o, slice):
        return getattr(o, name)
    if o is None:
        from .interp import Raised
        raise Raised('AttributeError', I.loc, "'NoneType' object has no attribute '%s'" % name)
    raise Unknown('attribute %s of %r' % (name, o))


def str_method(I, s, name, a, k):
    if name == 'join':
        vals = I.concrete_iter(a[0])
        if all(isinstance(x, str) for x in vals):
            return s.join(vals)
        raise Unknown('join')
    if all(isinstance(x, (str, int, float)) for x in a) and name in (
            'upper', 'lower', 'replace', 'split', 'strip', 'startswith', 'endswith', 'index', 'find', 'format', 'count',
            'swapcase', 'title', 'capitalize', 'rstrip', 'lstrip', 'isupper', 'islower', 'zfill', 'rfind', 'partition'):
        r = getattr(s, name)(*a, **k)
        if isinstance(r, list):
            return I.plist(r)
        return r
    if name == 'translate':
        raise Unknown('translate')
    raise Unknown('string method %s' % name)


def l_append(I, l, v):
    I.list_append(l, v)


def l_extend(I, l, v):
    I.list_extend(l, v)


def l_insert(I, l, k, v):
    I.list_touch(l, 'list modified')
    if isinstance(k, int) and l.concrete() and I.depth <= l.depth:
        l.entries.insert(k, Entry(v))
        return
    bs, gs = I.scope_context(l.depth)
    if bs or gs:
        l.entries.append(Entry(v, bs, gs))
    else:
        l.entries.insert(k if isinstance(k, int) else 0, Entry(v))


def l_pop(I, l, k=-1):
    I.list_touch(l, 'list modified')
    if l.concrete() and isinstance(k, int) and I.depth <= l.depth:
        return l.entries.pop(k).value
    raise Unknown('pop')


def l_copy(I, l):
    r = I.plist()
    r.entries = list(l.entries)
    return r


def l_index(I, l, x, *rest):
    if l.concrete():
        unk = False
        for k, v in enumerate(l.values()):
            r = I.compare('Eq', v, x)
            if r is True and not unk:
                return k
            if r is not False:
                unk = True
        if not unk:
            from .interp import Raised
            raise Raised('ValueError', I.loc)
    hook = getattr(I, 'index_hook', None)
    if hook is not None and not rest:
        r = hook(I, l, x)
        if r is not NotImplemented:
            return r
    if not rest and isinstance(x, (int, float)):
        off = Dim()
        for e in l.entries:
            r = I.compare('Eq', e.value, x) if not e.guards and not isinstance(e.value, Top) and len(e.binders) < 2 else None
            if r is True and not e.binders:
                return off.simp()
            if r is not False:
                break
            off = off.add(e.binders[0].hi.add(e.binders[0].lo, -1) if e.binders else 1)
        else:
            from .interp import Raised
            raise Raised('ValueError', I.loc)
    idx, key = I.list_index(l, x)
    if I.decide(key):
        return idx
    from .interp import Raised
    raise Raised('ValueError', I.loc)


def l_count(I, l, x):
    n = 0
    for v in l.values():
        r = I.compare('Eq', v, x)
        if r is True:
            n += 1
        elif r is not False:
            raise Unknown('count')
    return n


def l_sort(I, l, key=None, reverse=False):
    I.list_touch(l, 'list modified')
    vals = l.values()
    if all(isinstance(v, (int, float, str)) for v in vals) and key is None:
        l.entries = [Entry(v) for v in sorted(vals, reverse=bool(reverse))]
        return None
    raise Unknown('sort')


def l_reverse(I, l):
    I.list_touch(l, 'list modified')
    if l.concrete():
        l.entries.reverse()
        return None
    raise Unknown('reverse')


def l_clear(I, l):
    I.list_touch(l, 'list modified')
    l.entries = []


LISTM = {'append': l_append, 'extend': l_extend, 'insert': l_insert, 'pop': l_pop, 'copy': l_copy, 'index': l_index,
         'count': l_count, 'sort': l_sort, 'reverse': l_reverse, 'clear': l_clear}


def d_get(I, d, k, default=None):
    return d.d.get(I.dkey(k), default)


def d_update(I, d, o=None, **kw):
    if d.origin:
        I.effect(d.origin, 'dictionary modified')
    if o is not None:
        if isinstance(o, PDict):
            d.d.update(o.d)
        else:
            for kv in I.concrete_iter(o):
                k, v = I.concrete_iter(kv)
                d.d[I.dkey(k)] = v
    d.d.update(kw)


def d_setdefault(I, d, k, v=None):
    k = I.dkey(k)
    if k not in d.d:
        if d.origin:
            I.effect(d.origin, 'dictionary modified')
        d.d[k] = v
    return d.d[k]


def d_pop(I, d, k, *default):
    if d.origin:
        I.effect(d.origin, 'dictionary modified')
    return d.d.pop(I.dkey(k), *default)


DICTM = {'get': d_get, 'items': lambda I, d: I.plist([(k, v) for k, v in d.d.items()]),
         'keys': lambda I, d: I.plist(list(d.d)), 'values': lambda I, d: I.plist(list(d.d.values())),
         'update': d_update, 'setdefault': d_setdefault, 'pop': d_pop,
         'copy': lambda I, d: PDict(dict(d.d), depth=I.depth)}


# ---------------------------------------------------------------- builtins

def b_len(I, v):
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, PList):
        return list_len(I, v)
    if isinstance(v, PDict):
        return len(v.d)
    if isinstance(v, Arr):
        t = v.read()
        if isinstance(t, Tensor) and t.rank:
            return size_of(t.axes[0])
        if hasattr(t, 'sa_len'):
            return t.sa_len(I)
    if isinstance(v, range):
        return len(v)
    if isinstance(v, Top):
        raise Unknown(v.why)
    if hasattr(v, 'sa_len'):
        return v.sa_len(I)
    if isinstance(v, Obj) and isinstance(v.cls, Cls) and v.cls.lookup('__len__'):
        return I.call(I.getattr(v, '__len__'), [], {})
    from .interp import SymRange
    if isinstance(v, SymRange):
        return v.hi.add(v.lo, -1).simp()
    raise Unknown('len of %r' % (v,))


def list_len(I, l):
    d = Dim()
    for e in l.entries:
        if e.guards or len(e.binders) > 1:
            if l.lenspace is None:
                I.loopvar += 1
                l.lenspace = poly.space('len#%d' % I.loopvar)
                I.list_spaces = getattr(I, 'list_spaces', {})
                I.list_spaces[l.lenspace] = l
            return Dim.sp(l.lenspace)
        if e.binders:
            d = d.add(e.binders[0].hi.add(e.binders[0].lo, -1))
        else:
            d = d.add(1)
    return d.simp()


def b_range(I, *a):
    from .interp import SymRange
    if any(isinstance(x, Top) for x in a):
        raise Unknown('range')
    a = [int(I.const_of(x)) if isinstance(x, Tensor) and I.const_of(x) is not None else x for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        return SymRange(0, a[0])
    if len(a) == 2:
        return SymRange(a[0], a[1])
    raise Unknown('range step')


def b_enumerate(I, it, start=0):
    from .interp import SymIter
    items = I.iterate(it)
    if not any(isinstance(x, Gen) for x in items):
        return I.plist([(start + k, v) for k, v in enumerate(items)])
    if start != 0:
        raise Unknown('enumerate start')
    from .interp import IndexOf
    out = []
    off = Dim()
    exact = True
    for k, g in enumerate(items):
        if not isinstance(g, Gen):
            g = Gen([], [], g)
        if exact and not g.guards and len(g.binders) <= 1:
            if g.binders:
                b = g.binders[0]
                pos = Dim({b.var: 1}).add(b.lo, -1).add(off).simp()
                off = off.add(b.hi.add(b.lo, -1))
            else:
                pos = off.simp()
                off = off.add(1)
            out.append(Gen(g.binders, g.guards, (pos, g.value)))
        else:
            exact = False
            if isinstance(it, PList):
                out.append(Gen(g.binders, g.guards, (IndexOf(it, g.value), g.value)))
            else:
                raise Unknown('enumerate')
    return SymIter(out)


def b_zip(I, *its):
    from .interp import SymIter
    lists = [I.iterate(x) for x in its]
    if not any(isinstance(x, Gen) for l in lists for x in l):
        return I.plist([tuple(t) for t in zip(*lists)])
    hook = getattr(I, 'zip_hook', None)
    if hook is not None:
        r = hook(I, its)
        if r is not None:
            return r
    # symbolic: all must be the same sequence of ranges
    n = len(lists[0])
    if any(len(l) != n for l in lists):
        raise Unknown('zip of differently cut sequences')
    out = []
    for k in range(n):
        gs = [l[k] if isinstance(l[k], Gen) else Gen([], [], l[k]) for l in lists]
        if any(g.guards or len(g.binders) > 1 for g in gs) or len({len(g.binders) for g in gs}) > 1:
            raise Unknown('zip')
        if not gs[0].binders:
            out.append(Gen([], [], tuple(g.value for g in gs)))
            continue
        ln = [g.binders[0].hi.add(g.binders[0].lo, -1) for g in gs]
        if any(x != ln[0] for x in ln):
            raise Unknown('zip of different ranges')
        v = gs[0].binders[0]
        vals = [gs[0].value]
        for g in gs[1:]:
            b = g.binders[0]
            # position of b = v - v.lo + b.lo
            if isinstance(g.value, Dim):
                c = g.value.t.get(b.var, 0)
                d = g.value.add(Dim({b.var: 1}), -c).add(Dim({v.var: 1}).add(v.lo, -1).add(b.lo).mul(c))
                vals.append(d.simp())
            elif not _mentions(g.value, b.var):
                vals.append(g.value)
            elif b.lo == v.lo:
                vals.append(I.subst_value(g.value, {b.var: v.var}))
            else:
                from .interp import LazyItem
                if isinstance(g.value, LazyItem):
                    vals.append(LazyItem(g.value.arr, Dim({v.var: 1}).add(v.lo, -1).add(b.lo)))
                else:
                    raise Unknown('zip')
        out.append(Gen([v], [], tuple(vals)))
    return SymIter(out)


def _mentions(v, var):
    from .interp import LazyItem
    if isinstance(v, Dim):
        return var in v.t
    if isinstance(v, tuple):
        return any(_mentions(x, var) for x in v)
    if isinstance(v, LazyItem):
        return _mentions(v.idx, var)
    if isinstance(v, Tensor):
        return any(var in f[1:] for p in v.blocks.values() for m in p for f in m)
    return not isinstance(v, (int, float, str, bool, type(None)))


def b_sum(I, it, start=0):
    if isinstance(it, Arr) and isinstance(it.read(), Tensor) and it.read().rank == 1:
        return I.binop('Add', start, T.sum_all(I.to_tensor(it)))
    items = I.iterate(it)
    r = start
    for x in items:
        if isinstance(x, Gen):
            t = I.to_tensor(I.force(x.value))
            s = I.sum_over(x.binders, x.guards, t)
            if s is None:
                raise Unknown('sum over a filtered range')
            r = I.binop('Add', r, s)
        else:
            r = I.binop('Add', r, x)
    return r


def b_minmax(which):
    def f(I, *a, **kw):
        if kw:
            raise Unknown(which)
        vals = list(a) if len(a) > 1 else I.concrete_iter(a[0])
        hook = getattr(I, 'minmax_hook', None)
        best = vals[0]
        for v in vals[1:]:
            c = I.compare('Lt', v, best) if which == 'min' else I.compare('Gt', v, best)
            if I.truth(c):
                best = v
        return best
    return f


def b_isinstance(I, v, c):
    if isinstance(c, tuple):
        rs = [b_isinstance(I, v, x) for x in c]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return I.unknown_cond('isinstance')
    if isinstance(v, Top):
        return I.unknown_cond('isinstance')
    if isinstance(c, Cls):
        if isinstance(v, Obj) and isinstance(v.cls, Cls):
            return c.name in v.cls.mro_names()
        return False
    if isinstance(c, (Ext, DType)):
        n = c.path.split('.')[-1] if isinstance(c, Ext) else c.name
        if isinstance(v, Obj) and isinstance(v.attrs.get('__isinstance__'), dict):
            r = v.attrs['__isinstance__'].get(c.path if isinstance(c, Ext) else n)
            return I.unknown_cond('isinstance') if r is None else r
        if n == 'ndarray':
            return isinstance(v, Arr)
        if n == 'list':
            return isinstance(v, PList)
        if n == 'tuple':
            return isinstance(v, tuple)
        if n == 'dict':
            return isinstance(v, PDict)
        if n == 'str':
            return isinstance(v, str)
        if n in ('int', 'Integral'):
            return isinstance(v, (int, Dim)) and True
        if n == 'float':
            return isinstance(v, float) or (isinstance(v, Tensor) and v.kind == 'f')
        if n in ('complex', 'complexfloating'):
            return isinstance(v, Tensor) and v.kind == 'c'
        if n in ('bool',):
            return isinstance(v, bool)
        if n in ('Number', 'Real'):
            return isinstance(v, (int, float, Tensor, Dim))
    return I.unknown_cond('isinstance')


def b_hasattr(I, o, name):
    from .interp import Raised
    if isinstance(o, Obj):
        if o.getter is not None and o.getter(I, o, name) is not None:
            return True
        if name in o.attrs:
            return True
        if isinstance(o.cls, Cls) and o.cls.lookup(name) is not None:
            return True
        if o.closed:
            return False
        return I.unknown_cond('hasattr')
    if isinstance(o, Top):
        return I.unknown_cond('hasattr')
    try:
        v = I.getattr(o, name)
    except Raised:
        return False
    except Unknown:
        if isinstance(o, (tuple, PList, int, float, str)):
            return False
        return I.unknown_cond('hasattr')
    return True


def b_getattr(I, o, name, *default):
    from .interp import Raised
    if not isinstance(name, str):
        raise Unknown('getattr')
    if default:
        try:
            return I.getattr(o, name)
        except Raised:
            return default[0]
    return I.getattr(o, name)


def b_locals(I):
    if I.frame.func is None:
        raise Unknown('locals')
    return PDict(dict(I.frame.vars))


def b_setattr(I, o, name, v):
    if not isinstance(name, str):
        raise Unknown('setattr')
    I.setattr(o, name, v)


def b_int(I, v=0, *r):
    if isinstance(v, (int, float, str)) and not isinstance(v, bool):
        return int(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Dim):
        return v
    if isinstance(v, Cond):
        return int(I.truth(v))
    if isinstance(v, Tensor):
        c = I.const_of(v)
        if c is not None:
            return int(c)
        if v.kind == 'i':
            return v
    if hasattr(v, 'sa_int'):
        return v.sa_int(I)
    raise Unknown('int')


def b_float(I, v=0.0):
    if isinstance(v, (int, float, str)):
        return float(v)
    if isinstance(v, Tensor):
        return cast(I, v, DType('f'))
    if hasattr(v, 'sa_float'):
        return v.sa_float(I)
    if isinstance(v, Dim):
        return I.dim_tensor(v)
    raise Unknown('float')


def b_list(I, v=None):
    l = I.plist()
    if v is None:
        return l
    if hasattr(v, 'sa_list'):
        return v.sa_list(I)
    I.list_extend_raw(l, v)
    return l


def list_extend_raw(I, l, v):
    for g in I.iterate(v):
        if isinstance(g, Gen):
            l.entries.append(Entry(I.force(g.value), g.binders, g.guards))
        else:
            l.entries.append(Entry(g))


def b_tuple(I, v=()):
    return tuple(I.concrete_iter(v))


def b_reversed(I, v):
    return I.plist(list(reversed(I.concrete_iter(v))))


def b_sorted(I, v, key=None, reverse=False):
    vals = I.concrete_iter(v)
    if key is None and all(isinstance(x, (int, float, str)) for x in vals):
        return I.plist(sorted(vals, reverse=bool(reverse)))
    if key is None and not reverse and len(vals) <= 4:
        # insertion sort with decided comparisons
        out = []
        for x in vals:
            k = 0
            while k < len(out) and not I.truth(I.compare('Lt', x, out[k])):
                k += 1
            out.insert(k, x)
        return I.plist(out)
    raise Unknown('sorted')


def b_map(I, f, *its):
    z = b_zip(I, *its) if len(its) > 1 else None
    if z is None:
        return I.plist([I.call(f, [x], {}) for x in I.concrete_iter(its[0])])
    return I.plist([I.call(f, list(x), {}) for x in I.concrete_iter(z)])


def b_filter(I, f, it):
    out = []
    for x in I.concrete_iter(it):
        r = x if f is None else I.call(f, [x], {})
        if I.truth(r):
            out.append(x)
    return I.plist(out)


def b_abs(I, v):
    if hasattr(v, 'sa_fn'):
        return v.sa_fn(I, 'abs')
    if isinstance(v, Arr) and hasattr(v.read(), 'sa_fn'):
        return v.read().sa_fn(I, 'abs')
    if isinstance(v, (int, float)):
        return abs(v)
    t = I.to_tensor(v)
    e = exact_abs(I, t)
    return I.wrap(e if e is not None else lossy('abs', t, t.kind))


def b_round(I, v, *r):
    if isinstance(v, (int, float)):
        return round(v, *r)
    if hasattr(v, 'sa_fn'):
        return v.sa_fn(I, 'round')
    t = I.to_tensor(v)
    return I.wrap(lossy('round', t, t.kind))


def b_anyall(which):
    def f(I, it):
        vals = I.concrete_iter(it)
        unk = []
        for v in vals:
            t = v if isinstance(v, (bool, int)) else (v if isinstance(v, Cond) else I.truth(v))
            if isinstance(t, Cond):
                t = I.truth(t)
            if which == 'any' and t:
                return True
            if which == 'all' and not t:
                return False
        return which == 'all'
    return f


def b_super(I, *a):
    raise Unknown('super')


def b_type(I, v):
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, PList):
        return Ext('builtins.list')
    if isinstance(v, tuple):
        return Ext('builtins.tuple')
    raise Unknown('type')


def b_dict(I, *a, **kw):
    d = PDict(depth=I.depth)
    if a:
        if isinstance(a[0], PDict):
            d.d.update(a[0].d)
        else:
            for kv in I.concrete_iter(a[0]):
                k, v = I.concrete_iter(kv)
                d.d[I.dkey(k)] = v
    d.d.update(kw)
    return d


def b_slice(I, *a):
    return slice(*a)


def b_complex(I, *a):
    if len(a) == 1 and isinstance(a[0], Tensor):
        return Tensor(a[0].axes, a[0].blocks, 'c')
    raise Unknown('complex()')


def b_divmod(I, a, b):
    return (I.binop('FloorDiv', a, b), I.binop('Mod', a, b))


def b_set(I, v=()):
    vals = I.concrete_iter(v)
    out = []
    for x in vals:
        if not any(I.compare('Eq', x, y) is True for y in out):
            if any(I.compare('Eq', x, y) is not False for y in out):
                raise Unknown('set')
            out.append(x)
    return tuple(out)


def b_bool(I, v=False):
    if isinstance(v, Cond):
        return v
    return I.truth(v)


BUILTIN_FN = {
    'len': b_len, 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'sum': b_sum, 'min': b_minmax('min'),
    'max': b_minmax('max'), 'isinstance': b_isinstance, 'hasattr': b_hasattr, 'getattr': b_getattr,
    'setattr': b_setattr, 'locals': b_locals, 'int': b_int, 'float': b_float, 'list': b_list, 'tuple': b_tuple, 'reversed': b_reversed,
    'sorted': b_sorted, 'map': b_map, 'filter': b_filter, 'abs': b_abs, 'round': b_round, 'any': b_anyall('any'),
    'all': b_anyall('all'), 'super': b_super, 'type': b_type, 'dict': b_dict, 'slice': b_slice,
    'complex': b_complex, 'print': lambda I, *a, **k: None, 'divmod': b_divmod, 'set': b_set, 'frozenset': b_set,
    'bool': b_bool, 'iter': lambda I, v: v, 'callable': lambda I, v: isinstance(v, (Func, Cls, Native, Ext, Bound)),
    'pow': lambda I, a, b: I.binop('Pow', a, b), 'str': lambda I, v='': str(v) if isinstance(v, (str, int)) else _unk('str'),
    'ord': lambda I, c: ord(c), 'chr': lambda I, n: chr(n), 'id': lambda I, v: Top('id'),
    'object': lambda I: Obj('object'),
}
for _e in BUILTINS:
    if _e.endswith('Error') or _e.endswith('Exception') or _e == 'StopIteration' or _e.endswith('Warning'):
        BUILTIN_FN.setdefault(_e, lambda I, *a, **k: Top('exception object'))


def _unk(why):
    raise Unknown(why)


# ---------------------------------------------------------------- dispatch

def f_reduce(I, f, it, *init):
    vals = I.concrete_iter(it)
    if init:
        r = init[0]
    else:
        r, vals = vals[0], vals[1:]
    for v in vals:
        r = I.call(f, [r, v], {})
    return r


def f_partial(I, f, *a, **kw):
    return Native('partial', lambda I, *b, **k: I.call(f, list(a) + list(b), dict(kw, **k)))


def it_combinations(I, it, r):
    return I.plist(list(itertools.combinations(I.concrete_iter(it), r)))


def it_product(I, *its, **kw):
    rep = kw.get('repeat', 1)
    ls = [I.iterate(x) for x in its] * rep
    if not any(isinstance(x, Gen) for l in ls for x in l):
        return I.plist(list(itertools.product(*ls)))
    from .interp import SymIter
    out = []
    if rep != 1:
        ls = [I.iterate(x) for _ in range(rep) for x in its]
    for combo in itertools.product(*ls):
        bs, gs, vals = [], [], []
        for g in combo:
            if not isinstance(g, Gen):
                g = Gen([], [], g)
            bs += list(g.binders)
            gs += list(g.guards)
            vals.append(g.value)
        out.append(Gen(bs, gs, tuple(vals)))
    return SymIter(out)


def it_combinations_sym(I, it, r):
    ls = I.iterate(it)
    if not any(isinstance(x, Gen) for x in ls):
        return I.plist(list(itertools.combinations(ls, r)))
    # positions strictly increasing; entries are consecutive ranges of increasing values
    from .interp import SymIter
    out = []
    n = len(ls)
    for combo in itertools.combinations_with_replacement(range(n), r):
        gens = I.iterate(it)
        bs, gs, vals = [], [], []
        ok = True
        copies = []
        for c in combo:
            g = I.iterate(it)[c]
            if not isinstance(g, Gen):
                g = Gen([], [], g)
            copies.append(g)
        for k, g in enumerate(copies):
            if g.guards or len(g.binders) > 1:
                raise Unknown('combinations')
            if k and combo[k] == combo[k - 1]:
                if not g.binders:
                    ok = False
                    break
                prev = copies[k - 1].binders[0]
                d = Dim({g.binders[0].var: 1}).add(Dim({prev.var: 1}), -1)
                gs.append((('pos', d.key()), True))
            bs += list(g.binders)
            vals.append(g.value)
        if ok:
            out.append(Gen(bs, gs, tuple(vals)))
    return SymIter(out)


def it_chain(I, *its):
    l = I.plist()
    for x in its:
        list_extend_raw(I, l, x)
    return l


OTHER = {
    'functools.reduce': f_reduce, 'functools.partial': f_partial, 'itertools.combinations': it_combinations_sym,
    'itertools.product': it_product, 'itertools.chain': it_chain,
    'itertools.permutations': lambda I, it, r=None: I.plist(list(itertools.permutations(I.concrete_iter(it), r))),
    'copy.copy': lambda I, v: np_copy(I, v) if isinstance(v, (Arr, Tensor)) else copy_value(I, v),
    'copy.deepcopy': lambda I, v: np_copy(I, v) if isinstance(v, (Arr, Tensor)) else copy_value(I, v),
    'warnings.warn': lambda I, *a, **k: None, 'operator.mul': lambda I, a, b: I.binop('Mult', a, b),
    'operator.add': lambda I, a, b: I.binop('Add', a, b), 'operator.sub': lambda I, a, b: I.binop('Sub', a, b),
    'scipy.linalg.block_diag': lambda I, *ms: block_diag_model(I, ms),
    'pyscf.lib.einsum': np_einsum, 'pyscf.lib.numpy_helper.einsum': np_einsum, 'opt_einsum.contract': np_einsum,
    'pyscf.lib.dot': np_dot, 'pyscf.lib.ddot': np_dot,
}
for _n in ('exp', 'log', 'sqrt', 'log1p', 'expm1', 'sin', 'cos', 'tanh'):
    OTHER['math.' + _n] = unary_fn(_n)
OTHER['math.fabs'] = b_abs
OTHER['scipy.special.expit'] = unary_fn('expit')
OTHER['scipy.special.xlogy'] = lambda I, *a: _unk('xlogy')


def block_diag_model(I, ms):
    ts = [I.to_tensor(m) for m in ms]
    rows = []
    for k, t in enumerate(ts):
        row = [T.zeros((t.axes[0], u.axes[1]), 'f') if j != k else t for j, u in enumerate(ts)]
        rows.append(concat(row, 1))
    return I.new(concat(rows, 0))


def copy_value(I, v):
    if isinstance(v, PList):
        return l_copy(I, v)
    if isinstance(v, PDict):
        return PDict(dict(v.d), depth=I.depth)
    if isinstance(v, Obj):
        o = Obj(v.cls, dict(v.attrs), None, v.name)
        o.depth = I.depth
        o.getter = v.getter
        o.closed = v.closed
        return o
    return v


def ext_attr(I, e, name):
    p = e.path
    if p in ('numpy',):
        if name == 'newaxis':
            return None
        if name == 'pi':
            import math
            return math.pi
        if name == 'inf':
            return float('inf')
        if name == 'nan':
            raise Unknown('nan')
        if name in DTYPES:
            return DType(DTYPES[name], name if name in NARROW else None)
    if p == 'math' and name == 'inf':
        return float('inf')
    if p == 'math' and name == 'pi':
        import math
        return math.pi
    if p.startswith('pyscf') or True:
        return Ext(p + '.' + name)


def resolve_ext(I, path):
    if path in I.ext:
        return I.ext[path]
    if path.startswith('numpy.'):
        return NUMPY.get(path[6:])
    if path.startswith('builtins.'):
        return BUILTIN_FN.get(path[9:])
    return OTHER.get(path)


HIDDEN = ('numpy.random.', 'random.', 'time.', 'datetime.', 'os.', 'uuid.', 'secrets.', 'builtins.open', 'builtins.input',
          'builtins.id', 'numpy.load', 'numpy.fromfile', 'sys.')
QUIET = ('os.path.', 'sys.stdout', 'sys.stderr', 'time.time', 'time.perf_counter', 'time.process_time')


def call_ext(I, f, args, kwargs):
    if f.path.startswith(HIDDEN) and not f.path.startswith(QUIET):
        I.nondet.append((f.path, I.loc))
    fn = resolve_ext(I, f.path)
    if fn is None:
        I.unknowns.append((I.loc, 'call of %s' % f.path))
        for a in list(args) + list(kwargs.values()):
            I.maybe_mutated(a)
        return Top('call of %s' % f.path)
    if any(isinstance(a, Top) for a in args) and f.path not in ('builtins.print', 'builtins.isinstance',
                                                                 'builtins.hasattr', 'builtins.tuple', 'builtins.list'):
        why = [a.why for a in args if isinstance(a, Top)][0]
        spoil(I, f, args, kwargs)
        return Top(why)
    try:
        return fn(I, *args, **kwargs)
    except Unknown:
        spoil(I, f, args, kwargs)
        raise
    except TypeError as e:
        spoil(I, f, args, kwargs)
        if 'argument' in str(e):
            raise Unknown('%s: %s' % (f.path, e))
        raise


INPLACE = {'numpy.' + x for x in ('copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis', 'add.at',
                                  'subtract.at', 'multiply.at', 'random.shuffle')} | {'random.shuffle'}


def spoil(I, f, args, kwargs):
    """a library call that could not be followed: what it writes to is no longer known"""
    if f.path in INPLACE and args:
        I.maybe_mutated(args[0])
    out = kwargs.get('out')
    for x in out if isinstance(out, tuple) else (out,):
        I.maybe_mutated(x)


def install(I):
    I.ext_builtins = BUILTINS
    I.ext_attr = lambda e, name: ext_attr(I, e, name)
    I.call_ext = lambda f, a, k: call_ext(I, f, a, k)
    I.value_attr = lambda o, name: value_attr(I, o, name)
    I.list_extend_raw = lambda l, v: list_extend_raw(I, l, v)
    I.logged = []
