"""Obligations, verdicts, evidence and reports shared by all checks."""
import itertools
import json
import math
import os
import sys
import time
import traceback

from . import poly
from .interp import Interp, Raised, AbsError, TooComplex, Frame
from .poly import ATOMS, space_of
from .tensor import Dim, Tensor, SpaceError, Unknown, axis_name
from . import tensor as T
from .values import Top, Arr, Entry, Obj, PList, PDict

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


DEBUG = bool(os.environ.get('VERIF_DEBUG'))


class Broken(Exception):
    """the analysis lost its anchor: neither pass nor violation"""


PURE = 'no path writes to an argument, to module or class state or to a default argument; no hidden input is read'
OWN = 'returned arrays share no memory with the arguments or with cached state'
INPUTS = 'no path writes to an input'
# properties whose statement promises that inputs are left unmodified
INSTANCES = {'C%02d' % k for k in list(range(1, 14)) + list(range(15, 21)) + [37]}    # retried at fixed small sizes
OTHER = {'o': 3, 'v': 2, 'oa': 3, 'va': 2, 'ob': 3, 'vb': 2, 'n': 4}, {'oa': 2, 'va': 3, 'ob': 2, 'vb': 3}
SMALL_SECONDS = 120
CONFIRM = os.environ.get('VERIF_CONFIRM') != '0'
FORCE_SMALL = bool(os.environ.get('VERIF_SMALL'))
SMALL_WORK = 3000000
UNMODIFIED = {'C%02d' % k for k in range(1, 13)} | {'C18', 'C24', 'C28', 'C33'}


class _Guards(object):
    def __init__(self, guards):
        self.guards = guards


class Session(object):
    def __init__(self, prop, tier='quick', seed=1):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obligations = []       # (name, status, note)
        self.violations = []        # dict(rule, construct, where, message)
        self.functions = {}
        self.einsum_sites = set()
        self.calls = 0
        self.paths = 0
        self.terms = 0
        self.counts = {}
        self.rules = []
        self.assumptions = []
        self.missing = []
        self.exhausted = False
        self.work = 0
        self.small = False
        self.empty = set()      # spaces without elements on the path being compared
        self.where_bad = []     # conditions of the paths with differences
        self.small_time = 0
        self.mode = 'value'         # 'purity': judge effects and aliasing instead of results

    def interp(self):
        return Interp(REPO)

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def bump(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def lookup(self, I, mod, name, private=False):
        """a function of the analysed package; a vanished public one breaks the analysis"""
        try:
            v = I.lookup_global('cqcpy.' + mod, name)
        except KeyError:
            self.missing.append('%s.%s' % (mod, name))
            return None
        except SyntaxError as e:
            raise Broken('cannot parse: %s' % e)
        return v

    def where(self, loc):
        if not loc:
            return ''
        return '%s:%s in %s' % (os.path.relpath(loc[0], REPO) if os.path.isabs(loc[0]) else loc[0], loc[2], loc[1])

    def violate(self, rule, construct, message, loc=None):
        self.violations.append({'rule': rule, 'construct': construct, 'where': self.where(loc) if loc else '',
                                'message': message})

    def oblige(self, name, status, note=''):
        self.obligations.append((name, status, note))

    # ------------------------------------------------------------ running one obligation

    def run(self, I, name, construct, call, verify, rule, pure=True, loc=None, allow_effects=(), raises_ok=None,
            strict_raise=False, alias=False):
        """Analyse call() on every path and verify its result.

        verify(result, oracle) returns a list of messages (differences); raises Unknown when it cannot decide."""
        purity = self.mode == 'purity'
        self.rule(PURE if purity else rule)
        if self.prop in UNMODIFIED:
            self.rule(INPUTS)
        if purity and alias:
            self.rule(OWN)
        args = (I, name, construct, call, verify, rule, pure, loc, allow_effects, raises_ok, strict_raise, alias)
        status, note, bad = self.attempt(*args)
        if status == 'undecided' and not bad and not purity and not self.exhausted:
            # is there a definite difference when no space is small?
            Dim.MIN = 4
            try:
                st2, n2, bad = self.attempt(*args)
                if DEBUG:
                    print("no small spaces: %s %s %s" % (name, st2, n2))
            finally:
                Dim.MIN = 0
        if bad and CONFIRM and not purity and not any(r == INPUTS for r, m, l in bad) and not self.confirmed(I, args):
            status, note, bad = 'undecided', 'no difference at fixed small sizes although: %s' % bad[0][1], []
        elif status == 'undecided' and not bad and not purity and self.prop in INSTANCES:
            # or at fixed small sizes, element by element?
            sizes = T.Small.NAMED
            try:
                for s in ({},) + OTHER[:1] + ({'o': 2, 'v': 4, 'oa': 1, 'va': 2, 'ob': 2, 'vb': 1, 'n': 4},):
                    T.Small.NAMED = dict(sizes, **s)
                    if bad or self.small_spent():
                        break
                    bad = self.attempt_small(I, args)
            finally:
                T.Small.NAMED = sizes
        if FORCE_SMALL and not bad and self.prop in INSTANCES:
            bad = self.attempt_small(I, args)
        seen = set()
        for r, m, l in bad:
            if (r, m) in seen:
                continue
            seen.add((r, m))
            if len(seen) <= 12:
                self.violate(r, construct, m, l or loc)
        if bad:
            status = 'violation'
        self.oblige(name, status, note)
        self.collect(I)
        return status

    def confirmed(self, I, args):
        """whether a difference found for all sizes (or under conditions on them) is one at fixed small sizes too"""
        if self.prop not in INSTANCES or self.small_spent():
            return True
        sizes = T.Small.NAMED
        for guards in self.where_bad:
            if guards:
                todo = sizes_for(I, guards)
                if not todo:
                    return True
            else:
                todo = ({},) + OTHER
            try:
                for s in todo:
                    T.Small.NAMED = dict(sizes, **s)
                    if self.attempt_small(I, args) or self.last_small[0] != 'ok':
                        return True
                for step, s in itertools.product((4, 3, 5), todo if guards else ({},)):
                    T.Small.SPREAD, T.Small.STEP = s, step
                    if self.attempt_small(I, args):
                        return True
            finally:
                T.Small.NAMED = sizes
                T.Small.SPREAD = None
        return False

    def small_spent(self):
        return self.small_time > SMALL_SECONDS

    def attempt_small(self, I, args):
        t0 = time.monotonic()
        limit, poly.Budget.LIMIT = poly.Budget.LIMIT, SMALL_WORK
        self.small = I.small = True
        try:
            status, note, bad = self.attempt(*args)
        finally:
            self.small = I.small = False
            poly.Budget.LIMIT = limit
            self.small_time += time.monotonic() - t0
        self.last_small = status, note
        if DEBUG:
            print('small sizes: %s %s %s %.1f s' % (args[1], status, note, time.monotonic() - t0))
        return [(r, m + ' (at small fixed sizes)', l) for r, m, l in bad]

    def attempt(self, I, name, construct, call, verify, rule, pure, loc, allow_effects, raises_ok, strict_raise, alias):
        purity = self.mode == 'purity'
        self.exhausted = False
        self.where_bad = []
        nbad = 0
        status = 'ok'
        note = ''
        bad = []
        maybe = []
        doubtful = []
        right = 0
        npaths = 0
        normal = 0
        try:
            for fn, oracle in I.run_paths(call):
                I.effects = []
                I.breaks = []
                poly.Budget.reset()
                I.nondet = []
                I.origin_taints = []
                I.snap = []
                I.frames = [Frame(None)]
                npaths += 1
                try:
                    T.Small.active = self.small
                    try:
                        res = fn()
                    finally:
                        T.Small.active = False
                    normal += 1
                    if not purity:
                        self.empty = empty_spaces(oracle.guards)
                        msgs = list(verify(res, oracle) or ())
                        if msgs and self.guards_unknown(oracle):
                            # the path may not exist: a violation only if no other path is right either
                            doubtful.append(oracle.guards[:])
                        elif not msgs:
                            right += 1
                        for m in msgs:
                            (maybe if self.guards_unknown(oracle) else bad).append((rule, m if isinstance(m, str) else m[0], None if isinstance(m, str) else m[1]))
                    else:
                        sh = shares_memory(res) if alias else {o for o in shares_memory(res)
                                                               if not o.startswith('argument')}
                        if sh:
                            bad.append((OWN, 'a returned array or list is (a view of) %s' % ', '.join(sorted(sh)), loc))
                except Raised as e:
                    real = self.reachable(I)
                    if not real and not purity:
                        status, note = 'undecided', 'raises %s under a condition that may not occur' % e.name
                    elif purity:
                        if not oracle.guards:
                            status, note = 'undecided', 'raises %s' % e.name
                    elif raises_ok and raises_ok(e, oracle):
                        normal += 1
                    elif not oracle.guards or strict_raise and not e.explicit and not self.guards_unknown(oracle):
                        bad.append((rule, 'raises %s %s instead of returning a result%s'
                                    % (e.name, e.msg or '', self.guards_text(oracle)), e.loc))
                    elif not e.explicit:
                        status, note = 'undecided', 'raises %s under an undecided condition' % e.name
                except (SpaceError, AbsError) as e:
                    # definite on this path
                    if purity or self.guards_unknown(oracle) or not self.reachable(I):
                        status, note = 'undecided', '%s (under an undecided condition)' % e
                    else:
                        bad.append((rule, str(e), getattr(e, 'loc', None) or I.loc))
                except Unknown as e:
                    status, note = 'undecided', '%s at %s' % (e, self.where(I.loc))
                except RecursionError:
                    status, note = 'undecided', 'recursion'
                except poly.Exhausted as e:
                    status, note = 'undecided', '%s at %s' % (e, self.where(I.loc))
                    if not purity and not self.guards_unknown(oracle):
                        for origin, eloc, what in I.effects[:1]:
                            if origin not in allow_effects:
                                bad.append((rule, 'the result is built from an input that was overwritten before '
                                            '(%s: %s)' % (origin, what), eloc))
                    self.exhausted = True
                except Exception as e:
                    # a construct the analysis mishandles: no verdict for this obligation
                    if DEBUG:
                        raise
                    status, note = 'undecided', 'internal error %r at %s' % (e, self.where(I.loc))
                if len(bad) + len(maybe) > nbad:
                    self.where_bad.append(tuple(oracle.guards))
                    nbad = len(bad) + len(maybe)
                self.work = max(self.work, poly.Budget.work)
                poly.Budget.reset()
                I.restore_snapshot()
                if not purity and self.prop in UNMODIFIED:
                    for origin, eloc, what in I.effects:
                        if origin.startswith('argument') and origin not in allow_effects and 'attribute' not in what:
                            bad.append((INPUTS, '%s: %s' % (origin, what), eloc))
                if purity:
                    for origin, eloc, what in I.effects:
                        if origin not in allow_effects:
                            bad.append((PURE, '%s: %s' % (origin, what), eloc))
                    if pure and 'test_utils' not in construct:
                        for what, eloc in I.nondet:
                            bad.append((PURE, 'the result depends on %s, not on the arguments only' % what, eloc))
                    if I.origin_taints and status == 'ok':
                        status, note = 'undecided', '%s passed to an unmodelled function' % I.origin_taints[0]
        except TooComplex as e:
            status, note = 'undecided', str(e)
        except Exception as e:
            if DEBUG:
                raise
            status, note = 'undecided', 'internal error %r' % (e,)
        if maybe and not right:
            bad += maybe
        elif maybe and status == 'ok':
            status, note = 'undecided', 'differs under an undecided condition (%s)' % self.guards_text(_Guards(doubtful[0])).strip()
        self.paths += npaths
        self.calls += 1
        if not bad and status == 'ok' and not normal:
            status, note = 'undecided', 'every path raises'
        return status, note, bad

    def guards_unknown(self, oracle):
        return any(k[0] == '?' for k, v in oracle.guards)

    def reachable(self, I):
        """can the loop iteration being analysed occur: False when no sizes tried satisfy its conditions"""
        bs, gs = I.scope_context(0)
        gs = [(k, v) for k, v in gs if k[0] not in getattr(I, 'free_keys', ())]
        if not gs:
            return True
        from . import cistrings
        spaces = set()
        bits = {}
        for b in bs:
            spaces |= {x for d in (b.lo, b.hi) for x in d.t if x >= 0}
        for key, _ in gs:
            if key[0] in ('pos', 'zero'):
                spaces |= {x for x, _ in key[1][0] if x >= 0}
            elif key[0] == 'bit':
                bits[key[1][0]] = None
        e = Entry(None, bs, gs)
        for n in (2, 3, 5, 8):
            for pat in ([1, 0], [0, 1, 1], [0, 0, 1]):
                try:
                    for _ in cistrings.instances(e, {x: n for x in spaces}, {a: pat * 40 for a in bits}, 20000):
                        return True
                except (cistrings.TooMany, Unknown):
                    pass
        return False

    def guards_text(self, oracle):
        if not oracle.guards:
            return ''
        return ' (when %s)' % ' and '.join('%s%s' % ('' if v else 'not ', show_key(k)) for k, v in oracle.guards[:6])

    def collect(self, I):
        self.functions.update(I.functions_seen)
        self.einsum_sites |= I.einsum_sites


def show_key(k):
    if k[0] in ('pos', 'zero'):
        t, c = k[1]
        from .tensor import Dim
        return '%r %s 0' % (Dim(dict(t), c), '>' if k[0] == 'pos' else '==')
    if k[0] == '?':
        return 'condition at line %s' % (k[1][2],)
    return str(k)


def compare(session, I, got, axes, want, label, names=None, kind=None):
    """messages for a result that should equal the one-block tensor with polynomial want"""
    if isinstance(got, Top):
        raise Unknown('%s: %s' % (label, got.why))
    if session.small:
        return compare_tensor(session, I, got, T.Tensor([(a,) for a in axes], {(0,) * len(axes): want}, 'b'), label, names, False)
    t = I.to_tensor(got)
    if t.rank != len(axes):
        return ['%s: array of rank %d instead of %d' % (label, t.rank, len(axes))]
    for k, (a, b) in enumerate(zip(t.axes, axes)):
        if a != (b,):
            return ['%s: axis %d runs over %s, expected %s' % (label, k, axis_name(a), axis_name((b,)))]
    if any(a in session.empty for a in axes):
        return []
    p = t.blocks.get((0,) * t.rank, {})
    return compare_poly(session, p, want, label, names)


def tainted(p):
    return any(ATOMS[f[0]].name.startswith('top:') for k in p for f in k)


def compare_poly(session, p, want, label, names=None):
    session.terms += len(want)
    d = poly.pclean(poly.padd(p, want, -1))
    if d and session.empty:
        d = {k: v for k, v in d.items() if not any(index_space(i) in session.empty for f in k for i in f[1:])}
    if d:
        miss, extra = {}, {}
        for k, v in d.items():
            if k in want and k not in p:
                miss[k] = want[k]
            elif k in p and k not in want:
                extra[k] = p[k]
        wrong = {k: v for k, v in d.items() if k not in miss and k not in extra}
        msg = '%s differs from the specification' % label
        if miss:
            msg += '; missing: %s' % poly.show(miss, names, 6)
        if extra:
            msg += '; extra: %s' % poly.show(extra, names, 6)
        for k in sorted(wrong)[:4]:
            msg += '; coefficient %s instead of %s for %s' % (cf(p[k]), cf(want[k]), poly.show_mono(k, names))
        return [msg]
    return []


def index_space(i):
    return poly.NAMED_INFO[i][1] if i < 0 else poly.space_of(i) if i >= 1000 else None


def empty_spaces(guards):
    """spaces of size zero under the conditions of a path"""
    out = set()
    for key, v in guards:
        if key[0] == 'pos' and not v or key[0] == 'zero' and v:
            t, c = key[1]
            t = dict(t)
            if key[0] == 'zero' and all(n < 0 for n in t.values()):
                t, c = {s: -n for s, n in t.items()}, -c
            if c == 0 and all(s >= 0 and n > 0 for s, n in t.items()):
                out |= set(t)
    return out


def sizes_for(I, guards, top=4):
    """small sizes of the spaces in the conditions of a path for which they hold, None when there are conditions of another kind"""
    polys = []
    spaces = set()
    for key, v in guards:
        if key[0] in ('pos', 'zero'):
            t, c = key[1]
            terms = [(n, (s,)) for s, n in t] + [(c, ())]
            rel = '>' if key[0] == 'pos' else '='
        elif key[0] == 'cmp' and key in I.cmp_polys:
            terms = []
            for m, k in I.cmp_polys[key].items():
                names = [poly.ATOMS[f[0]].name if f[0] != poly.SGN and len(f) == 1 else '' for f in m]
                if any(not n.startswith('dim:') or n[4:] not in poly.SPACE_IDS for n in names):
                    return None
                terms.append((k, tuple(poly.SPACE_IDS[n[4:]] for n in names)))
            rel = key[2]
        else:
            return None
        if any(s < 0 for k, m in terms for s in m):
            return None
        spaces |= {s for k, m in terms for s in m}
        polys.append((terms, rel, v))
    spaces = sorted(spaces)
    if len(spaces) > 6:
        return None
    out = []
    seen = set()
    for n in sorted(itertools.product(range(top + 1), repeat=len(spaces)), key=lambda n: (n.count(0), n.count(1), sum(n))):
        env = dict(zip(spaces, n))
        for terms, rel, v in polys:
            x = sum(k * math.prod(env[s] for s in m) for k, m in terms)
            if (x > 0 if rel == '>' else x < 0 if rel == '<' else x == 0) != v:
                break
        else:
            kind = tuple(min(k, 2) for k in n)
            if kind not in seen:
                seen.add(kind)
                out.append({poly.SPACE_NAMES[s]: k for s, k in env.items()})
                if len(out) == 4:
                    break
    return out


def cf(c):
    return str(c) if c.denominator < 10**6 else '%.15g' % float(c)


def compare_tensor(session, I, got, want, label, names=None, check_kind=True):
    """messages for a result that should equal the (possibly segmented) tensor want"""
    if isinstance(got, Top):
        raise Unknown('%s: %s' % (label, got.why))
    if got is None:
        return ['%s: nothing is returned' % label]
    t = I.to_tensor(got)
    if session.small:
        want = T.small(want)
    if t.rank != want.rank:
        return ['%s: array of rank %d instead of %d' % (label, t.rank, want.rank)]
    for k in range(t.rank):
        if t.axes[k] != want.axes[k]:
            if T.axis_dim(t.axes[k]) == T.axis_dim(want.axes[k]):
                n = T.reseg(t, k, want.axes[k]) if T.uniform_runs(t, k) else None
                if n is not None and n.axes[k] == want.axes[k]:
                    t = n
                    continue
            return ['%s: axis %d runs over %s, expected %s' % (label, k, axis_name(t.axes[k]), axis_name(want.axes[k]))]
    out = []
    for key in sorted(set(t.blocks) | set(want.blocks)):
        if session.empty and any(want.axes[n][k] in session.empty for n, k in enumerate(key)):
            continue
        p, q = t.blocks.get(key, {}), want.blocks.get(key, {})
        lab = label
        if any(len(a) > 1 for a in want.axes):
            lab = '%s block (%s)' % (label, ', '.join(poly.SPACE_NAMES[want.axes[n][k]] for n, k in enumerate(key)))
        out += compare_poly(session, p, q, lab, names)
    if check_kind and T.KINDS[t.kind] < T.KINDS[want.kind]:
        out.append('%s: result has a narrower value type (%s) than the exact result (%s)' % (label, t.kind, want.kind))
    return out


def shares_memory(result, acc=None):
    """origins of input arrays whose memory a result refers to"""
    out = set()
    seen = set()

    def walk(v):
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, Arr):
            o = v.root().origin
            if o:
                out.add(o)
        elif isinstance(v, (tuple, list)):
            for x in v:
                walk(x)
        elif isinstance(v, PList):
            if v.origin:
                out.add(v.origin)
            for e in v.entries:
                walk(e.value)
        elif isinstance(v, PDict):
            for x in v.d.values():
                walk(x)
        elif isinstance(v, Obj):
            for x in v.attrs.values():
                walk(x)
    walk(result)
    return out


# ---------------------------------------------------------------- evidence and exit status

def known_findings():
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def finish(s, meta):
    ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    known = [k for k in known_findings() if k['property'] == s.prop]
    new, old = [], []
    for v in s.violations:
        m = [k for k in known if k['rule'] == v['rule'] and k['construct'] == v['construct']
             and k.get('contains', '') in v['message']]
        (old if m else new).append(v)
    for v in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (s.prop, v['construct'], v['message']))
    ok = [o for o in s.obligations if o[1] == 'ok']
    und = [o for o in s.obligations if o[1] == 'undecided']
    vio = [o for o in s.obligations if o[1] == 'violation']
    wall = time.time() - s.t0
    rec = {
        'property': s.prop, 'tier': s.tier, 'seed': s.seed, 'level': meta['level'], 'wall_s': round(wall, 3),
        'violations': len(new),
        'coverage': {
            'explanation': meta['explanation'],
            'obligations': len(s.obligations),
            'discharged': len(ok),
            'undecided': [{'obligation': o[0], 'why': o[2]} for o in und],
            'violated': [o[0] for o in vio],
            'obligation_names': [o[0] for o in s.obligations],
            'rules': s.rules,
            'functions_analysed': sorted(s.functions),
            'functions_analysed_count': len(s.functions),
            'contraction_call_sites': len(s.einsum_sites),
            'paths_analysed': s.paths,
            'reference_terms_compared': s.terms,
        },
        'assumptions': s.assumptions,
    }
    rec['coverage'].update(s.counts)
    if meta['level'] == 'proof':
        rec['coverage']['checker_cmd'] = 'python3 check.py %s' % s.prop
        rec['coverage']['trusted_base'] = meta.get('trusted_base', '')
    with open(os.path.join(ev, s.prop + '.json'), 'w') as f:
        json.dump(rec, f, indent=1, sort_keys=True, default=str)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d contraction sites, %d paths, '
          '%d reference terms; %.1f s' % (s.prop, len(s.obligations), len(ok), len(und), len(vio), len(s.functions),
                                          len(s.einsum_sites), s.paths, s.terms, wall))
    for o in und:
        print('UNDECIDED property=%s %s: %s' % (s.prop, o[0], o[2]))
    if new:
        path = os.path.join(ev, s.prop + '.violation.txt')
        with open(path, 'w') as f:
            for v in new:
                f.write('%s\n  construct: %s\n  where: %s\n  rule: %s\n\n' % (v['message'], v['construct'], v['where'],
                                                                           v['rule']))
        for v in new:
            print('%s [%s] %s: %s' % (v['where'], v['rule'], v['construct'], v['message']))
        print('VIOLATION property=%s replay=%s' % (s.prop, path))
        return 1
    if s.missing:
        print('ANALYSIS BROKEN: not found: %s' % ', '.join(s.missing))
        return 2
    if not ok and not vio:
        print('ANALYSIS BROKEN: no obligation could be decided')
        return 2
    if len(s.obligations) < meta.get('min_obligations', 1):
        print('ANALYSIS BROKEN: %d obligations found, at least %d expected' % (len(s.obligations),
                                                                               meta['min_obligations']))
        return 2
    return 0
