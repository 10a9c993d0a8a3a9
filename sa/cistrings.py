"""Sets of determinant strings built by loops: excitation summary, canonical configurations and counting."""
import itertools
from fractions import Fraction

from . import poly, tensor as T
from .poly import SGN, named, space
from .tensor import Dim, Tensor, Unknown
from .interp import Raised
from .npmodel import as_array
from .tensor import KINDS
from .values import Arr, DType, Obj, Top, Cond


# ---------------------------------------------------------------- strings as (reference, moved electrons)

class Moved(object):
    """occupations of a string: those of a reference with electrons moved by a sequence of excitations (from, to)"""

    def __init__(self, base, seq, holes, parts):
        self.base = base
        self.seq = None if seq is None else tuple(seq)      # None: occupations set one by one
        self.holes = tuple(holes)
        self.parts = tuple(parts)

    def __repr__(self):
        return 'moved(%r -> %r)' % (list(self.holes), list(self.parts))

    def sa_arrattr(self, I, o, name):
        if name in ('shape', 'ndim', 'size', 'dtype'):
            return I.getattr(self.base, name)
        raise Unknown('attribute %s of a moved string' % name)

    def sa_len(self, I):
        return I.getattr(self.base, 'shape')[0]

    def sa_index(self, I, o, idx):
        return int(filled(I, self, Dim.of(position(I, idx))))

    def sa_setindex(self, I, o, idx, v):
        if o.base is not None or I.depth > o.depth:
            raise Unknown('occupation set in a loop')
        o.val = self.put(I, idx, v)

    def put(self, I, idx, v):
        """the occupation of one orbital set to a fixed number"""
        x = Dim.of(position(I, idx))
        c = I.const_of(I.to_tensor(v))
        if c not in (0, 1):
            raise Unknown('occupation')
        holes, parts = list(self.holes), list(self.parts)
        if filled(I, self, x) and not c:
            drop(I, x, parts) or holes.append(x)
        elif not filled(I, self, x) and c:
            drop(I, x, holes) or parts.append(x)
        return Moved(self.base, None, holes, parts)

    def subst(self, I, m):
        f = lambda d: I.subst_value(d, m)
        seq = None if self.seq is None else [(f(i), f(a)) for i, a in self.seq]
        return Moved(self.base, seq, [f(x) for x in self.holes], [f(x) for x in self.parts])


class StrObj(Obj):
    """string object whose occupations are a Moved value; renamed with the loop variables it mentions"""
    I = None

    def subst(self, m):
        mv = self.attrs['occ'].read()
        o = StrObj(self.cls, dict(self.attrs))
        o.I = self.I
        o.attrs['occ'] = Arr(mv.subst(self.I, m))
        return o


def seq_id(I, base, seq):
    """sign variable of a sequence of excitations applied to the reference"""
    tab = I.__dict__.setdefault('seq_table', {})
    n = named('seq:%x:' % id(base) + ';'.join('%r>%r' % (i, a) for i, a in seq))
    tab[n] = (base, tuple(seq))
    return n


def install_excite(I, cls):
    """replace the excitation of a string by its specification (established by C24)"""
    def excite(I, args, kwargs):
        if len(args) != 3 or kwargs:
            a = dict(zip(('self', 'i', 'a'), args))
            a.update(kwargs)
            args = [a['self'], a['i'], a['a']]
        o, i, a = args
        try:
            i, a = Dim.of(position(I, i)), Dim.of(position(I, a))
        except Unknown:
            raise Unknown('orbital number')
        occ = I.getattr(o, 'occ')
        if not isinstance(occ, Arr):
            raise Unknown('occupations')
        mv = occ.read()
        if not isinstance(mv, Moved):
            if not isinstance(mv, Tensor):
                raise Unknown('occupations')
            mv = Moved(occ, (), (), ())
        if mv.seq is None:
            raise Unknown('sign of an excitation from a string set up by hand')
        if not filled(I, mv, i):
            return (None, None)
        if filled(I, mv, a):
            if I.truth(I.dim_zero(i.add(a, -1))):
                return (T.const(1), o)
            return (None, None)
        holes, parts = list(mv.holes), list(mv.parts)
        drop(I, i, parts) or holes.append(i)
        drop(I, a, holes) or parts.append(a)
        seq = mv.seq + ((i, a),)
        vs = {seq_id(I, mv.base, seq)}
        if mv.seq:
            vs ^= {seq_id(I, mv.base, mv.seq)}
        n = StrObj(cls, {'n': I.getattr(o, 'n')})
        n.I = I
        n.attrs['occ'] = Arr(Moved(mv.base, seq, holes, parts))
        return (T.scalar({((SGN,) + tuple(sorted(vs)),): Fraction(1)}, 'i'), n)
    I.overrides[cls.module.name + '.' + cls.name + '.excite'] = excite


def install_writes(I):
    """occupations set by hand in a copy of a reference"""
    def fresh(x):
        return not x.origin and x.depth == I.depth and I.depth > 0

    def write(o, idx, v, op=None):
        t = o.read()
        if isinstance(t, Moved) and op is not None:
            t.sa_setindex(I, o, idx, I.binop(op, t.sa_index(I, o, idx), v))
            return True
        if not fresh(o) or o.base is not None or not isinstance(idx, Dim) or not isinstance(t, Tensor) or t.rank != 1 or \
                t.kind != 'i':
            return False
        m = Moved(I.new(t), (), (), ())
        o.val = m.put(I, idx, v if op is None else I.binop(op, m.sa_index(I, o, idx), v))
        return True

    def lwrite(o, idx, v):
        if not fresh(o) or not isinstance(idx, Dim):
            return False
        m = (o.attrs or {}).get('moved')
        if m is None:
            a = as_array(I, o)
            if not isinstance(a, Arr) or not isinstance(a.read(), Tensor):
                return False
            m = Moved(a, (), (), ())
        m = m.put(I, idx, v)
        o.entries = [type(e)(Top('list')) for e in o.entries[:1]]
        o.attrs = dict(o.attrs or {}, moved=m)
        return True

    def renamed(o, m):
        if not isinstance(o.attrs.get('occ'), Arr) or not isinstance(o.attrs['occ'].read(), Moved):
            return None
        n = Obj(o.cls, dict(o.attrs))
        n.attrs['occ'] = Arr(o.attrs['occ'].read().subst(I, m))
        return n
    I.moved_write = write
    I.list_setitem = lwrite
    I.obj_subst = renamed


def install_raize(I, cls):
    """replace raising a mode of a boson string by its specification (established separately)"""
    def raize(I, args, kwargs):
        if len(args) + len(kwargs) != 2:
            raise Unknown('arguments')
        o, p = (list(args) + list(kwargs.values()))[:2]
        p = Dim.of(position(I, p))
        occ = I.getattr(o, 'occ')
        if not isinstance(occ, Arr):
            raise Unknown('occupations')
        mv = occ.read()
        if not isinstance(mv, Moved):
            if not isinstance(mv, Tensor):
                raise Unknown('occupations')
            mv = Moved(occ, (), (), ())
        n = StrObj(cls, {'n': I.getattr(o, 'n')})
        n.I = I
        n.attrs['occ'] = Arr(Moved(mv.base, mv.seq, mv.holes, mv.parts + (p,)))
        return n
    I.overrides[cls.module.name + '.' + cls.name + '.raize'] = raize


def position(I, x):
    if isinstance(x, (int, Dim)) and not isinstance(x, bool):
        return x
    if isinstance(x, Tensor):
        c = I.const_of(x)
        if c is not None and c.denominator == 1:
            return int(c)
    raise Unknown('position')


def filled(I, mv, x):
    base = base_filled(I, mv.base.read(), x)
    for y in (mv.holes if base else mv.parts):
        if I.truth(I.dim_zero(x.add(y, -1))):
            return not base
    return base


def base_filled(I, t, x):
    if isinstance(t, Tensor) and t.rank == 1 and not x.t:
        # fixed orbital number: which run it lies in depends on the sizes
        off = Dim()
        if x.c < 0:
            raise Unknown('negative orbital number')
        for k, sp in enumerate(t.axes[0]):
            off = off.add(Dim.sp(sp))
            p = t.blocks.get((k,), {})
            if set(p) - {()}:
                break
            if I.truth(I.dim_pos(off.add(x, -1))):
                return bool(p.get((), 0))
        else:
            raise Raised('IndexError', I.loc)
    if isinstance(t, Tensor) and t.rank == 1 and not any(set(p) - {()} for p in t.blocks.values()):
        # constant runs: the run the orbital lies in
        runs, off = [], Dim()
        for k, sp in enumerate(t.axes[0]):
            v = t.blocks.get((k,), {}).get((), 0)
            hi = off.add(Dim.sp(sp))
            if runs and runs[-1][0] == v:
                runs[-1][2] = hi
            else:
                runs.append([v, off, hi])
            off = hi
        for v, lo, hi in runs:
            if I.dim_nonneg(x.add(lo, -1)) is True and I.dim_nonneg(hi.add(x, -1).add(-1)) is True:
                return bool(v)
    b = I.getitem(Arr(t), x.simp())
    return I.truth(I.compare('NotEq', b, 0))


def drop(I, x, l):
    for k, y in enumerate(l):
        if I.dim_zero(x.add(y, -1)) is True or I.known_guard(('zero', I.zero_key(x.add(y, -1)))) is True:
            del l[k]
            return True
    return False


# ---------------------------------------------------------------- canonical configurations

class Axis(object):
    """orbitals of one spin: consecutive runs ('o'/'v', length) of a pattern reference, or an arbitrary reference (runs None)"""

    def __init__(self, tag, runs=None, n=None):
        self.tag = tag
        self.runs = runs
        self.n = n

    def configs(self, k):
        """all ways to choose k filled and k empty orbitals up to the sizes of the gaps: lists of (run, kind) in order"""
        if self.runs is None:
            for c in itertools.combinations(range(2 * k), k):
                yield ['o' if q in c else 'v' for q in range(2 * k)]
            return
        def split(kind, k):
            rs = [r for r, (kd, ln) in enumerate(self.runs) if kd == kind]
            for c in compositions(k, len(rs)):
                yield dict(zip(rs, c))
        for x in split('o', k):
            for y in split('v', k):
                z = dict(x)
                z.update(y)
                yield z


def compositions(k, n):
    if n == 0:
        if k == 0:
            yield ()
        return
    for x in range(k + 1):
        for r in compositions(k - x, n - 1):
            yield (x,) + r


class World(object):
    """one configuration of every axis: positions of the chosen orbitals as forms over gap sizes"""

    def __init__(self):
        self.holes = []
        self.parts = []
        self.rank_h = []
        self.rank_p = []
        self.equal = {}         # space -> alternative forms
        self.memo = {}
        self.label = ''

    def add(self, ax, conf, tag):
        h, p = [], []
        rank = {'o': Dim(), 'v': Dim()}
        rh, rp = [], []
        g = 0

        def gap():
            nonlocal g
            g += 1
            return Dim.sp(space('%s.g%d' % (tag, g)))
        if ax.runs is None:
            off = gap()
            for kind in conf:
                (h if kind == 'o' else p).append(off)
                off = off.add(1).add(gap())
            self.relate(Dim.of(ax.n), off)
            self.label += ' %s:%s' % (ax.tag, ''.join(conf)) if ax.tag else ' ' + ''.join(conf)
        else:
            start = Dim()
            for r, (kind, ln) in enumerate(ax.runs):
                off = gap()
                for _ in range(conf.get(r, 0)):
                    (h if kind == 'o' else p).append(start.add(off))
                    (rh if kind == 'o' else rp).append(rank[kind].add(off))
                    off = off.add(1).add(gap())
                self.relate(Dim.of(ln), off)
                start = start.add(Dim.of(ln))
                rank[kind] = rank[kind].add(Dim.of(ln))
            self.label += ' %s%s' % (ax.tag, [conf.get(r, 0) for r in range(len(ax.runs))])
        self.holes.append(h)
        self.parts.append(p)
        self.rank_h.append(rh)
        self.rank_p.append(rp)

    def relate(self, ln, form):
        """ln = form: solve for each space with coefficient one"""
        self.memo.clear()
        for s, c in ln.t.items():
            if c == 1:
                self.equal.setdefault(s, []).append(form.add(ln.add(Dim({s: 1}), -1), -1))

    def variants(self, d, depth=0):
        yield d
        if depth > 3:
            return
        for s in d.t:
            for alt in self.equal.get(s, ()):
                yield from self.variants(d.add(Dim({s: 1}), -d.t[s]).add(alt.mul(d.t[s])), depth + 1)
                if depth > 1:
                    break

    def positive(self, d):
        k = ('pos', frozenset(d.t.items()), d.c)
        if k not in self.memo:
            self.memo[k] = next((r for f in self.variants(d) for r in [Dim(None, 0).lt(f)] if r is not None), None)
        return self.memo[k]

    def zero(self, d):
        k = ('zero', frozenset(d.t.items()), d.c)
        if k not in self.memo:
            self.memo[k] = next((r for f in self.variants(d) for r in [f.eq(0)] if r is not None), None)
        return self.memo[k]


def value_strings(v):
    """(objects) of a list element: a string or a tuple of strings"""
    if isinstance(v, tuple):
        return list(v)
    return [v]


def moved_of(I, o):
    if not isinstance(o, Obj):
        return None
    occ = o.attrs.get('occ')
    if not isinstance(occ, Arr):
        return None
    c = occ.read()
    if isinstance(c, Moved):
        return c
    return Moved(occ, (), (), ())


def assign_vars(forms, positions, env, world):
    """solve form = position for the loop variables; False if inconsistent, None if undecided"""
    for f, p in zip(forms, positions):
        vs = [(s, c) for s, c in f.t.items() if s < 0 and s not in env]
        g = f
        for s, c in list(f.t.items()):
            if s in env:
                g = g.add(Dim({s: 1}), -c).add(env[s].mul(c))
        if not vs:
            z = world.zero(g.add(p, -1))
            if z is not True:
                return z
            continue
        if len(vs) > 1 or vs[0][1] not in (1, -1):
            raise Unknown('orbital number %r' % (f,))
        s, c = vs[0]
        env[s] = p.add(g.add(Dim({s: 1}), -c), -1).mul(c)
    return True


def holds(key, val, env, world, occ):
    """truth of a guard in a configuration: True / False / None"""
    if key[0] in ('pos', 'zero'):
        d = Dim(dict(key[1][0]), key[1][1])
        d = d.subst(env)
        if d is None:
            raise Unknown('loop variable not tied to the element')
        r = world.positive(d) if key[0] == 'pos' else world.zero(d)
        return None if r is None else r == val
    if key[0] == 'bit':
        f = key[1]
        if len(f) == 2 and f[1] in env:
            b = occ(env[f[1]])
            return None if b is None else b == val
    raise Unknown('condition %r' % (key,))


def count(I, entries, world, axes):
    """number of times a configuration is produced: (count, undecided forms?)"""
    total = 0
    unsure = False
    for e, mvs in entries:
        sols, u = solutions(e, mvs, world)
        total += len(sols)
        unsure = unsure or u
    return total, unsure


def solutions(e, mvs, world):
    """assignments of the loop variables of an entry that produce the configuration: (list, undecided forms?)"""
    found = []
    state = {'unsure': False}
    if [len(m.holes) for m in mvs] != [len(h) for h in world.holes] or \
            [len(m.parts) for m in mvs] != [len(p) for p in world.parts]:
        return found, False
    slots = []              # (form, candidate positions, group)
    for n, (m, h, p) in enumerate(zip(mvs, world.holes, world.parts)):
        for k in range(max(len(m.holes), len(m.parts))):
            if k < len(m.holes):
                slots.append((m.holes[k], h, (n, 'h')))
            if k < len(m.parts):
                slots.append((m.parts[k], p, (n, 'p')))

    seen = set()

    def rec(k, env, used):
        if k == len(slots):
            key = tuple(sorted((v, d.key()) for v, d in env.items()))
            if key in seen:         # equal positions interchanged
                return
            seen.add(key)
            left = [b.var for b in e.binders if b.var not in env]
            if left:
                env = dict(env)
                for _ in left:
                    for key, val in e.guards:       # equations of the loop variables
                        if key[0] == 'zero' and val:
                            vs = [(v, c) for v, c in key[1][0] if v < 0 and v not in env]
                            if len(vs) == 1 and abs(vs[0][1]) == 1:
                                v, c = vs[0]
                                d = Dim(dict(key[1][0]), key[1][1]).add(Dim({v: 1}), -c)
                                env[v] = d.subst(env).mul(-c)
            if any(b.var not in env for b in e.binders):
                raise Unknown('an element is repeated by a loop variable it does not mention')
            r = check(e, env, world)
            if r is None:
                state['unsure'] = True
            elif r:
                found.append(env)
            return
        form, cand, grp = slots[k]
        for q, p in enumerate(cand):
            if (grp, q) in used:
                continue
            n = dict(env)
            r = assign_vars([form], [p], n, world)
            if r is False:
                continue
            if r is None:
                state['unsure'] = True
                continue
            if check(e, n, world, set(n) - set(env)) is False:
                continue
            rec(k + 1, n, used | {(grp, q)})
    rec(0, {}, frozenset())
    return found, state['unsure']


def check(e, env, world, new=None):
    res = True

    def occ(p):
        for h in world.holes:
            for x in h:
                if world.zero(p.add(x, -1)) is True:
                    return True
        for h in world.parts:
            for x in h:
                if world.zero(p.add(x, -1)) is True:
                    return False
        return None

    for b in e.binders:
        if b.var not in env or new is not None and b.var not in new:
            continue
        for f in (env[b.var].add(1).add(b.lo, -1), b.hi.add(env[b.var], -1)):
            f = f.subst(env)
            if f is None:
                continue
            r = world.positive(f)
            if r is False:
                return False
            if r is None:
                res = None
    for key, val in e.guards:
        if new is not None:
            vs = [s for s, _ in key[1][0] if s < 0] if key[0] in ('pos', 'zero') else \
                [key[1][1]] if key[0] == 'bit' else []
            if not vs or any(v not in env for v in vs) or not any(v in new for v in vs):
                continue
        r = holds(key, val, env, world, occ)
        if r is False:
            return False
        if r is None:
            res = None
    return res


# ---------------------------------------------------------------- refutation at given sizes

class TooMany(Exception):
    pass


def instances(e, env, bits, limit=400000):
    """assignments of the loop variables of a list entry at given sizes (env: spaces -> numbers)"""
    left = [limit]
    guards = list(e.guards)

    def val(d, env):
        r = d.c
        for s, c in d.t.items():
            if s not in env:
                return None
            r += c * env[s]
        return r

    def ok(env, done):
        for n, (key, want) in enumerate(guards):
            if n in done:
                continue
            if key[0] in ('pos', 'zero'):
                v = val(Dim(dict(key[1][0]), key[1][1]), env)
                if v is None:
                    continue
                r = v > 0 if key[0] == 'pos' else v == 0
            elif key[0] == 'bit':
                f = key[1]
                if len(f) != 2 or f[0] not in bits:
                    raise Unknown('condition')
                if f[1] not in env:
                    continue
                if not 0 <= env[f[1]] < len(bits[f[0]]):
                    raise Unknown('position')
                r = bool(bits[f[0]][env[f[1]]])
            else:
                raise Unknown('condition')
            if r != want:
                return False
            done.add(n)
        return True

    def rec(k, env, done):
        left[0] -= 1
        if left[0] < 0:
            raise TooMany()
        if k == len(e.binders):
            if len(done) == len(guards):
                yield env
            else:
                raise Unknown('condition')
            return
        b = e.binders[k]
        lo, hi = val(b.lo, env), val(b.hi, env)
        if lo is None or hi is None:
            raise Unknown('range')
        for x in range(lo, hi):
            n = dict(env)
            n[b.var] = x
            d = set(done)
            if ok(n, d):
                yield from rec(k + 1, n, d)
    d = set()
    if ok(env, d):
        yield from rec(0, dict(env), d)


def refute(entries, refs, levels, env, bits, none=()):
    """first difference between the listed strings and the expected ones at given sizes, or None"""
    got = {}
    for e in none:
        for _ in instances(e, env, bits):
            return 'contains None instead of a string'
    for e, mvs in entries:
        for x in instances(e, env, bits):
            def num(d):
                r = d.c
                for s, c in d.t.items():
                    r += c * x[s]
                return r
            key = []
            for m, ref in zip(mvs, refs):
                occ = list(ref)
                for y in m.holes:
                    occ[num(y)] -= 1
                for y in m.parts:
                    occ[num(y)] += 1
                key.append(tuple(occ))
            got[tuple(key)] = got.get(tuple(key), 0) + 1
    want = set()
    for lv in levels:
        for combo in itertools.product(*[list(excited(r, k)) for r, k in zip(refs, lv)]):
            want.add(combo)
    for k in sorted(set(got) | want):
        n, w = got.get(k, 0), 1 if k in want else 0
        if n != w:
            return 'holds %s %s instead of %s for the reference %s' % (
                ' '.join(show_occ(x) for x in k), times(n), times(w), ' '.join(show_occ(x) for x in refs))
    return None


def refute_quanta(entries, n, levels, env):
    """first difference between the listed boson strings of n modes and the expected ones, or None"""
    got = {}
    for e, mvs in entries:
        for x in instances(e, env, {}):
            occ = [0] * n
            for y in mvs[0].parts:
                occ[y.c + sum(c * x[s] for s, c in y.t.items())] += 1
            got[tuple(occ)] = got.get(tuple(occ), 0) + 1
    want = {o for o in itertools.product(range(max(levels) + 1), repeat=n) if sum(o) in levels}
    for k in sorted(set(got) | want):
        g, w = got.get(k, 0), 1 if k in want else 0
        if g != w:
            return 'holds %s %s instead of %s' % (show_occ(k), times(g), times(w))
    return None


def show_occ(o):
    return ''.join(map(str, o))


def times(n):
    return {0: 'not at all', 1: 'once', 2: 'twice'}.get(n, '%d times' % n)


def excited(ref, k):
    o = [i for i, x in enumerate(ref) if x]
    v = [i for i, x in enumerate(ref) if not x]
    for h in itertools.combinations(o, k):
        for p in itertools.combinations(v, k):
            yield tuple(0 if i in h else 1 if i in p else x for i, x in enumerate(ref))


# ---------------------------------------------------------------- CI vectors

class Amp(object):
    """amplitude array read element by element; each index is kept as a linear form"""

    def __init__(self, name, rank, kind='f'):
        self.name, self.rank, self.kind = name, rank, kind
        self.atom = poly.atom('amp:' + name, rank, real=kind != 'c')

    def sa_index(self, I, o, idx):
        idx = idx if isinstance(idx, tuple) else (idx,)
        if len(idx) != self.rank or any(not isinstance(x, (int, Dim)) or isinstance(x, bool) for x in idx):
            raise Unknown('part of the amplitudes')
        tab = I.__dict__.setdefault('form_table', {})
        ids = []
        for x in idx:
            n = named('form:%r' % (Dim.of(x).key(),))
            tab[n] = Dim.of(x)
            ids.append(n)
        return T.scalar({((self.atom,) + tuple(ids),): Fraction(1)}, self.kind)

    def sa_arrattr(self, I, o, name):
        if name == 'dtype':
            return DType(self.kind)
        if name == 'ndim':
            return self.rank
        raise Unknown('attribute %s of the amplitudes' % name)


class Vec(object):
    """CI vector: its element writes"""

    def __init__(self, size, kind, src=None):
        self.size, self.kind = size, kind
        self.writes = []        # (binders, guards, index, op, value, loc)

    def put(self, I, o, idx, op, v):
        if o.root().origin:
            I.effect(o.root().origin, 'array element written')
        if isinstance(idx, tuple) and len(idx) == 1:
            idx = idx[0]
        if isinstance(v, Elem) and op == '=':
            if v.vec is self and v.idx is idx:
                v, op = v.delta, '+='
            else:
                raise Unknown('element of the vector')
        if isinstance(v, Top):
            raise Unknown(v.why)
        if isinstance(v, Elem):
            raise Unknown('value written to the vector')
        t = I.to_tensor(v)
        if KINDS[t.kind] > KINDS[self.kind] and t.blocks:
            t = I.lose(t, self.kind)
        bs, gs = I.scope_context(o.root().depth)
        self.writes.append((bs, gs, idx, op, t, I.loc))

    def sa_setindex(self, I, o, idx, v):
        self.put(I, o, idx, '=', v)

    def sa_augindex(self, I, o, idx, op, v):
        if op == 'Sub':
            v = I.unary('USub', v)
        elif op != 'Add':
            raise Unknown('update of the vector')
        self.put(I, o, idx, '+=', v)

    def sa_index(self, I, o, idx):
        if isinstance(idx, tuple) and len(idx) == 1:
            idx = idx[0]
        return Elem(self, idx, T.const(0))

    def sa_arrattr(self, I, o, name):
        if name == 'dtype':
            return DType(self.kind)
        if name == 'shape':
            return (self.size,)
        if name == 'size':
            return self.size
        if name == 'ndim':
            return 1
        raise Unknown('attribute %s of the vector' % name)


class Elem(object):
    """element of a CI vector plus an increment"""

    def __init__(self, vec, idx, delta):
        self.vec, self.idx, self.delta = vec, idx, delta

    def sa_binop(self, I, op, other, reflected):
        if op in ('Add', 'Sub') and not (op == 'Sub' and reflected) and not isinstance(other, (Elem, Top)):
            return Elem(self.vec, self.idx, T.add(self.delta, I.to_tensor(other), 1 if op == 'Add' else -1))
        return NotImplemented


# ---------------------------------------------------------------- strings of an arbitrary basis

class OpaqueStr(Obj):
    """string of an unspecified basis: (spin label, position in the basis, excitations applied)"""

    def subst(self, m):
        from .interp import subst_dim
        return opaque(self.cls, self.spin, subst_dim(self.pos, m), self.seq)

    def key(self):
        return ('str', self.spin, self.pos.key(), tuple((i.key(), a.key()) for i, a in self.seq))


def opaque(cls, spin, pos, seq=()):
    o = OpaqueStr(cls, {})
    o.spin, o.pos, o.seq = spin, pos, tuple(seq)
    o.getter = unspecified
    return o


def unspecified(I, o, name):
    if name in ('occ', 'n'):
        raise Unknown('%s of a string of an unspecified basis' % name)
    return None


def step_name(o):
    return 'sgn:%s:%s' % (o.spin, ';'.join('%r>%r' % x for x in o.seq))


def pos_index(I, pos):
    """index standing for a position: the loop variable itself where it is one"""
    if pos.c == 0 and list(pos.t.values()) == [1]:
        return next(iter(pos.t))
    n = named('form:%r' % (pos.key(),))
    I.__dict__.setdefault('form_table', {})[n] = pos
    return n


def sign_factor(I, o):
    """sign of the last excitation of an opaque string"""
    return (poly.atom(step_name(o), 1, real=True), pos_index(I, o.pos))


def install_opaque_excite(I, cls):
    def excite(I, args, kwargs):
        a = dict(zip(('self', 'i', 'a'), args))
        a.update(kwargs)
        o = a['self']
        if not isinstance(o, OpaqueStr):
            raise Unknown('string')
        i, p = Dim.of(position(I, a['i'])), Dim.of(position(I, a['a']))
        n = opaque(o.cls, o.spin, o.pos, o.seq + ((i, p),))
        if not I.truth(Cond(('excited', n.key()))):
            return (None, None)
        return (T.scalar({(sign_factor(I, n),): Fraction(1)}, 'i'), n)
    I.overrides[cls.module.name + '.' + cls.name + '.excite'] = excite
