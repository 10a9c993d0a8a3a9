"""Abstract values other than tensors."""
from .tensor import Tensor, Unknown


class Top(object):
    """unknown value"""
    __slots__ = ('why', 'fixed')

    def __init__(self, why='', fixed=False):
        self.why = why
        self.fixed = fixed      # the same value in every iteration of the loops entered afterwards

    def __repr__(self):
        return 'Top(%s)' % self.why


class DType(object):
    __slots__ = ('kind', 'name')

    def __init__(self, kind, name=None):
        self.kind = kind
        self.name = name or kind

    def __repr__(self):
        return 'dtype(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, DType) and o.kind == self.kind and self.narrow == o.narrow

    def __hash__(self):
        return hash((self.kind, self.narrow))

    @property
    def narrow(self):
        return self.name in ('float32', 'complex64', 'float16', 'single', 'csingle', 'half')


class Ext(object):
    """a name of an external library: numpy.einsum, pyscf.ao2mo.general, math.exp ..."""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Ext(%s)' % self.path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Native(object):
    """callable implemented by the analysis"""
    __slots__ = ('name', 'fn', 'selfobj')

    def __init__(self, name, fn, selfobj=None):
        self.name = name
        self.fn = fn
        self.selfobj = selfobj

    def __repr__(self):
        return 'Native(%s)' % self.name


class Module(object):
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.env = {}
        self.tree = None
        self.loaded = False

    def __repr__(self):
        return 'Module(%s)' % self.name


class Func(object):
    def __init__(self, node, module, closure, name, defaults, kwdefaults, cls=None):
        self.node = node
        self.module = module
        self.closure = closure      # Frame or None
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.attrs = {}
        self.kind = 'function'      # function / staticmethod / classmethod / property
        self.is_gen = None

    def __repr__(self):
        return 'Func(%s)' % self.name


class Cls(object):
    def __init__(self, name, module, bases, attrs):
        self.name = name
        self.module = module
        self.bases = bases
        self.attrs = attrs

    def lookup(self, name):
        if name in self.attrs:
            return self.attrs[name]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(name)
                if r is not None:
                    return r
        return None

    def mro_names(self):
        out = [self.name]
        for b in self.bases:
            if isinstance(b, Cls):
                out += b.mro_names()
        return out

    def __repr__(self):
        return 'Cls(%s)' % self.name


class Obj(object):
    """instance of an analysed class, or a symbolic external object (cls None or str)"""
    def __init__(self, cls, attrs=None, origin=None, name=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.origin = origin
        self.name = name
        self.depth = 0
        self.getter = None          # optional fn(interp, obj, attr) -> value or None
        self.closed = True          # unknown attributes raise AttributeError

    def __repr__(self):
        return 'Obj(%s)' % (self.name or getattr(self.cls, 'name', self.cls))


class Bound(object):
    __slots__ = ('func', 'obj')

    def __init__(self, func, obj):
        self.func = func
        self.obj = obj


class Arr(object):
    """numpy array object: base array (val) or view of another one"""
    __slots__ = ('val', 'base', 'get', 'put', 'origin', 'depth', 'logs', 'lines', 'tag', 'attrs')

    def __init__(self, val=None, base=None, get=None, put=None, origin=None, depth=0):
        self.val = val
        self.base = base
        self.get = get
        self.put = put
        self.origin = origin
        self.depth = depth
        self.logs = None
        self.lines = None
        self.tag = None
        self.attrs = None

    def root(self):
        a = self
        while a.base is not None:
            a = a.base
        return a

    def read(self):
        if self.base is None:
            return self.val
        b = self.base.read()
        if isinstance(b, Top):
            return b
        return self.get(b)

    def __repr__(self):
        return 'Arr(%r)' % (self.read(),)


class Entry(object):
    """element(s) of a list: a single value (no binders) or a comprehension"""
    __slots__ = ('binders', 'guards', 'value')

    def __init__(self, value, binders=(), guards=()):
        self.value = value
        self.binders = tuple(binders)
        self.guards = tuple(guards)

    def __repr__(self):
        if not self.binders and not self.guards:
            return repr(self.value)
        return '{%r | %s ; %s}' % (self.value, ', '.join(map(repr, self.binders)), ', '.join(map(repr, self.guards)))


class PList(object):
    """a Python list"""
    __slots__ = ('entries', 'origin', 'depth', 'lenspace', 'attrs')

    def __init__(self, values=(), origin=None, depth=0):
        self.entries = [Entry(v) for v in values]
        self.origin = origin
        self.depth = depth
        self.lenspace = None
        self.attrs = None

    def concrete(self):
        return all(not e.binders and not e.guards for e in self.entries)

    def values(self):
        if not self.concrete():
            raise Unknown('symbolic list used as a concrete one')
        return [e.value for e in self.entries]

    def __repr__(self):
        return 'PList%r' % (self.entries,)


class PDict(object):
    __slots__ = ('d', 'origin', 'depth')

    def __init__(self, d=None, origin=None, depth=0):
        self.d = {} if d is None else d
        self.origin = origin
        self.depth = depth


class Cond(object):
    """condition of unknown truth; equal keys have equal truth"""
    __slots__ = ('key', 'neg')

    def __init__(self, key, neg=False):
        self.key = key
        self.neg = neg

    def __repr__(self):
        return 'Cond(%s%s)' % ('not ' if self.neg else '', self.key,)


class Gen(object):
    """one symbolic generator of an iterable: element value under binders and guards"""
    __slots__ = ('binders', 'guards', 'value')

    def __init__(self, binders, guards, value):
        self.binders = binders
        self.guards = guards
        self.value = value


class Unshaped(object):
    """two-dimensional result of an integral transformation that still has to be reshaped to its four axes"""
    __slots__ = ('tensor',)

    def __init__(self, tensor):
        self.tensor = tensor
