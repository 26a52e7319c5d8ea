"""Symbolic Python/numpy values."""
from .term import *
from . import solve


class PoisonRead(Exception):
    def __init__(self, name):
        self.name = name


class PRaise(Exception):
    """a Python exception raised by the program under verification"""
    def __init__(self, etype, msg=''):
        self.etype, self.msg = etype, msg


class PReturn(Exception):
    def __init__(self, value):
        self.value = value


class PBreak(Exception):
    pass


class PContinue(Exception):
    pass


class Infeasible(Exception):
    pass


class Num:
    """scalar: term, python/numpy type tag, nan flag
    ty: int float bool (python), i8 f8 b1 (numpy), c16 complex (field element)"""
    __slots__ = ('t', 'ty', 'nan')

    def __init__(self, t, ty, nan=FALSE):
        self.t, self.ty, self.nan = t, ty, nan

    def __repr__(self):
        return 'Num(%s:%s%s)' % (self.t, self.ty, '' if self.nan is FALSE else ' nan?%s' % self.nan)

    @property
    def isbool(self):
        return self.ty in ('bool', 'b1')

    @property
    def isint(self):
        return self.ty in ('int', 'i8')

    def arith(self):
        return ind(self.t) if self.t.sort == 'B' else self.t

    def const(self):
        """python constant or None"""
        if self.nan is not FALSE:
            return None
        if self.t is TRUE:
            return True
        if self.t is FALSE:
            return False
        if self.t.op == 'num':
            v = self.t.args[0]
            return int(v) if v.denominator == 1 else v
        return None


class Ref:
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return 'Ref%d' % self.id


class ArrObj:
    """numpy array: shape (tuple of Int terms), fn(*idx)->(term, nan), dtype f i b c O
    filt = (N, guard(t)->T, elem(t)->(term,nan)) for arrays holding the guard-selected elements in order
    enum_sorted: filt whose elem is the identity (strictly increasing index array)
    base/wpred/wval: functional update on top of base"""
    __slots__ = ('shape', 'fn', 'dtype', 'filt', 'identity', 'base', 'wpred', 'wval', 'view', 'pylist', 'memo', 'note')

    def __init__(self, shape, fn, dtype, filt=None, identity=False, base=None, wpred=None, wval=None, view=None,
                 pylist=False, note=None):
        self.shape = tuple(shape)
        self.fn = fn
        self.dtype = dtype
        self.filt = filt
        self.identity = identity
        self.base, self.wpred, self.wval = base, wpred, wval
        self.view = view          # Ref id of the array this is a numpy view of
        self.pylist = pylist      # a Python list/tuple of symbolic length
        self.memo = {}
        self.note = note

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *idx):
        return self.fn(*idx)

    def copy_as(self, **kw):
        d = dict(shape=self.shape, fn=self.fn, dtype=self.dtype, filt=self.filt, identity=self.identity)
        d.update(kw)
        return ArrObj(**d)


def TCTX():
    from . import term
    return term.CTX[0]


class ListObj:
    """Python list of known length"""
    __slots__ = ('items', 'istuple')

    def __init__(self, items):
        self.items = list(items)


class SeqList:
    """symbolic list being built in a loop: placeholder + appended values"""
    __slots__ = ('base', 'appended', 'key')

    def __init__(self, key, base=None, appended=()):
        self.key, self.base, self.appended = key, base, tuple(appended)


class DictObj:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = dict(d)


class InstObj:
    """instance of a modelled external class"""
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, dict(attrs)


class FuncVal:
    __slots__ = ('node', 'module', 'closure', 'name', 'defaults', 'kwdefaults')

    def __init__(self, node, module, closure, name, defaults=(), kwdefaults=None):
        self.node, self.module, self.closure, self.name = node, module, closure, name
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}

    def __repr__(self):
        return 'FuncVal(%s)' % self.name

    @property
    def qual(self):
        return self.module.name + ':' + self.name


class Builtin:
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return 'Builtin(%s)' % self.name


class BoundMethod:
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class ExtModule:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'ExtModule(%s)' % self.name


class TypeVal:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Type(%s)' % self.name


class DType:
    __slots__ = ('code',)

    def __init__(self, code):
        self.code = code


class SymFn:
    """an unknown pure numeric function parameter (e.g. the function whose root is sought)"""
    __slots__ = ('name', 'calls', 'retty')

    def __init__(self, name, retty='f8'):
        self.name = name
        self.retty = retty


class Ghost:
    """what a function parameter was asked: number of calls, smallest value returned (None: no call yet)"""
    __slots__ = ('n', 'best')

    def __init__(self, n, best):
        self.n, self.best = n, best


class Iter:
    """iteration space: t in [0,N) with optional guard(t); item(t) -> value.  N may be None (unbounded)."""
    __slots__ = ('N', 'item', 'guard', 'facts')

    def __init__(self, N, item, guard=None, facts=None):
        self.N, self.item, self.guard, self.facts = N, item, guard, facts


class RangeVal:
    __slots__ = ('a', 'b', 's')

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class GenVal:
    """lazily evaluated generator expression"""
    __slots__ = ('node', 'frame')

    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class PoisonVal:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


def pyint(v):
    return Num(num(v), 'int')


def pybool(v):
    return Num(TRUE if v else FALSE, 'bool')


def mkfloat(t, nan=FALSE):
    return Num(t, 'float', nan)
