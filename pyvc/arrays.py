# -*- coding: utf-8 -*-
"""NumPy arrays whose elements are symbolic.

An SArr holds a real numpy array of objects (of the real class: ndarray, matrix or a class of /repo): shapes, views,
indexing, broadcasting and the class of results are those of the real numpy, which is run on arrays of objects; the
operations on elements are done by the engine.  numpy.vectorize is interpreted from its own source, over frompyfunc().
The linear algebra functions are used through their mathematical contract.
"""
import math, operator
import z3
from .engine import (Sym, SFloat, SInt, SBool, SNum, Unsupported, is_num, finite_const, rv)
from . import ops
from .ops import is_interp, raw_lookup, repo_class, has_sym, BINOPS
try:
    import numpy
except ImportError:
    numpy = None

DT = {'f': float, 'O': object, 'b': bool, 'i': int}
RANK = 'bifO'


def kind_of(x):
    """Kind of the array numpy makes of a scalar."""
    if isinstance(x, (bool, SBool)) or numpy is not None and isinstance(x, numpy.bool_):
        return 'b'
    if isinstance(x, (int, SInt)) or isinstance(x, numpy.integer):
        return 'i'
    if isinstance(x, (float, SFloat)) or isinstance(x, numpy.floating):
        return 'f'
    return 'O'


def join(kinds):
    return max(kinds, key=RANK.index) if kinds else 'f'


def dkind(dtype):
    k = numpy.dtype(dtype).kind
    if k not in 'fObi':
        raise Unsupported('dtype %s' % dtype)
    return k


class SArr(Sym):
    __slots__ = ('a', 'kind', 'E0')

    def __init__(self, a, kind):
        assert a.dtype == object
        self.a, self.kind = a, kind

    @property
    def pytype(self):
        return type(self.a)

    def __repr__(self):
        return '<%s %s %s %s>' % (type(self.a).__name__, self.kind, self.a.shape, list(self.a.flat)[:6])

    def like(self, a):
        return SArr(a, self.kind) if isinstance(a, numpy.ndarray) else a

    # -------------------------------------------------------- protocol
    def sym_attr(self, E, name):
        raw = raw_lookup(type(self.a), name)
        if isinstance(raw, property) and is_interp(raw.fget):
            return E.call(raw.fget, (self,), {})
        if is_interp(raw):
            import types
            return types.MethodType(raw, self)
        a = self.a
        if name in ('shape', 'size', 'ndim', '__array_priority__'):
            return getattr(a, name)
        if name == 'dtype':
            return numpy.dtype(DT[self.kind])
        if name == 'itemsize':
            return numpy.dtype(DT[self.kind]).itemsize
        if name in ('T', 'base'):
            return self.like(getattr(a, name))
        if name in ('A', 'A1') and isinstance(a, numpy.matrix):
            return self.like(getattr(a, name))
        if name == 'real' and self.kind != 'O':
            return self
        if name == 'H' and isinstance(a, numpy.matrix):
            if self.kind == 'O':
                raise Unsupported('.H of an array of objects')
            return self.like(a.T)
        if name == 'flat':
            return SFlat(self)
        if name == '__class__':
            return type(a)
        if hasattr(type(a), name):
            return AMeth(self, name)
        raise AttributeError("'%s' object has no attribute '%s'" % (type(a).__name__, name))

    def sym_setattr(self, E, name, v):
        if name == '__class__':
            self.a = self.a.view(v) if type(self.a) is not v else self.a
            return
        if name == 'shape':
            self.a = self.a.reshape(v)
            return
        raise Unsupported('%s of an array is set' % name)

    def sym_len(self, E):
        return len(self.a)

    def sym_call(self, E, args, kw):
        raw = raw_lookup(type(self.a), '__call__')
        if is_interp(raw):
            return E.call(raw, (self,) + tuple(args), kw)
        raise TypeError("'%s' object is not callable" % type(self.a).__name__)

    def sym_iter(self, E):
        return iter([self.like(x) for x in self.a])

    def sym_truth(self, E):
        if self.a.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        r = E.truth_of(self.a.flat[0])
        return z3.BoolVal(bool(r))

    def sym_float(self, E):
        if self.a.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return E.to_float(self.a.flat[0])

    def key(self, E, k):
        if isinstance(k, tuple):
            return tuple(self.key(E, x) for x in k)
        if isinstance(k, SArr):
            if k.kind == 'b':
                m = numpy.array([E.truth_of(x) for x in k.a.flat], dtype=bool).reshape(k.a.shape)
                return m
            if k.kind == 'i':
                return numpy.array([E.concretize(x) for x in k.a.flat], dtype=int).reshape(k.a.shape)
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        if isinstance(k, SNum):
            return E.concretize(k)
        if isinstance(k, slice) and has_sym(k):
            return slice(*[E.concretize(x) for x in (k.start, k.stop, k.step)])
        return k

    def sym_getitem(self, E, k):
        return self.like(self.a[self.key(E, k)])

    def sym_setitem(self, E, k, v):
        k = self.key(E, k)
        E.log_write(self, ('item', None))
        v = as_sarr(E, v)
        v = convert(E, v, self.kind)
        if v.a.ndim == 0:
            sub = self.a[k]
            if isinstance(sub, numpy.ndarray):
                x = numpy.empty(sub.shape, dtype=object)
                for i in numpy.ndindex(*sub.shape):
                    x[i] = v.a[()]
                self.a[k] = x
            else:
                self.a[k] = v.a[()]
        else:
            self.a[k] = numpy.asarray(v.a)

    def sym_contains(self, E, x):
        raise Unsupported('in on an array')

    # -------------------------------------------------------- operators
    def sym_binop(self, E, op, b, refl):
        x, y = (b, self) if refl else (self, b)
        cls = type(self.a)
        n = BINOPS[op][0]
        if refl:
            raw = raw_lookup(cls, '__r%s__' % n)
            if is_interp(raw):
                return E.call(raw, (self, b), {})
        else:
            tb = E.type_of(b)
            raw = raw_lookup(tb, '__r%s__' % n)
            if is_interp(raw) and issubclass(tb, cls) and tb is not cls:
                return E.call(raw, (b, self), {})
            raw = raw_lookup(cls, '__%s__' % n)
            if is_interp(raw):
                return E.call(raw, (self, b), {})
        if op == '@':
            return dot(E, x, y)
        if op == '*' and any(issubclass(E.type_of(t), numpy.matrix) for t in (x, y)):
            if refl and not issubclass(E.type_of(y), numpy.matrix):
                return NotImplemented
            return dot(E, x, y if scalar(E, y) or isinstance(E.type_of(y), numpy.matrix) else asmatrix(E, (y,), {}))
        if op == '**' and issubclass(E.type_of(x), numpy.matrix):
            raise Unsupported('power of a matrix')
        return elementwise(E, op, x, y)

    def sym_inplace(self, E, op, b):
        if op == '*' and isinstance(self.a, numpy.matrix):
            r = self.sym_binop(E, op, b, False)
        else:
            r = elementwise(E, op, self, b)
        if r.kind != self.kind:
            if RANK.index(r.kind) > RANK.index(self.kind):
                raise TypeError("Cannot cast ufunc output from dtype('%s') to dtype('%s') with casting rule 'same_kind'" % (
                    DT[r.kind], DT[self.kind]))
        if r.a.shape != self.a.shape:
            raise ValueError('non-broadcastable output operand')
        E.log_write(self, ('item', None))
        self.a[...] = r.a
        return self

    def sym_unary(self, E, op):
        if op == '+' and self.kind != 'O':
            return self.like(self.a.copy())
        if op == '~':
            raise Unsupported('~ of an array')
        return map1(E, self, lambda x: E.unary(op, x), self.kind)

    def sym_compare(self, E, op, b):
        if isinstance(b, (type(None), str, dict)):
            raise Unsupported('comparison of an array with %r' % (b,))
        x, y, shape, cls = broadcast(E, self, b, operator.lt)
        return build(cls, shape, [E.compare(op, p, q) for p, q in zip(x, y)], 'b')

    def snapshot(self):
        return (type(self.a), self.a.shape, self.kind, [id(x) for x in self.a.flat])


class SFlat(Sym):
    __slots__ = ('arr',)
    pytype = numpy.flatiter if numpy else None

    def __init__(self, arr):
        self.arr = arr

    def sym_iter(self, E):
        return iter(list(self.arr.a.flat))

    def sym_len(self, E):
        return self.arr.a.size

    def sym_getitem(self, E, k):
        r = numpy.asarray(self.arr.a).flat[self.arr.key(E, k)]
        return self.arr.like(r)

    def sym_setitem(self, E, k, v):
        v = convert(E, as_sarr(E, v), self.arr.kind)
        E.log_write(self.arr, ('item', None))
        k = self.arr.key(E, k)
        if isinstance(k, int) and v.a.ndim == 0:
            self.arr.a.flat[k] = v.a[()]
        else:
            self.arr.a.flat[k] = v.a

    def sym_attr(self, E, name):
        if name == 'base':
            return self.arr
        raise Unsupported('flat.%s' % name)


class AMeth(Sym):
    """Bound method of an array."""
    __slots__ = ('arr', 'name')
    pytype = type([].append)

    def __init__(self, arr, name):
        self.arr, self.name = arr, name

    def __hash__(self):
        return id(self)

    def sym_call(self, E, args, kw):
        s, n = self.arr, self.name
        a = s.a
        if n in ('copy', '__copy__', '__deepcopy__'):
            if n == '__deepcopy__' and s.kind == 'O':
                raise Unsupported('deepcopy of an array of objects')
            return SArr(a.copy(), s.kind)
        if n in ('reshape', 'transpose', 'swapaxes', 'squeeze', 'ravel', 'flatten', 'diagonal', 'repeat'):
            if has_sym(args):
                raise Unsupported('array.' + n)
            return s.like(getattr(a, n)(*args, **kw))
        if n == 'view':
            if len(args) == 1 and not kw and isinstance(args[0], type) and issubclass(args[0], numpy.ndarray):
                return SArr(a.view(args[0]), s.kind)
            if not args and not kw:
                return SArr(a.view(), s.kind)
            raise Unsupported('array.view%r' % (args,))
        if n == 'astype':
            r = convert(E, s, dkind(args[0]))
            return SArr(r.a.copy(), r.kind) if r is s else r
        if n == 'tolist':
            return s.a.tolist()
        if n == 'item' and (args or a.size == 1):
            return a.item(*args)
        if n == 'dot' and len(args) == 1:
            return dot(E, s, args[0])
        if n == 'trace' and not args and a.ndim == 2:
            tot = 0.0
            for i in range(min(a.shape)):
                tot = E.binop('+', tot, numpy.asarray(a)[i, i])
            return tot
        if n in ('conj', 'conjugate') and s.kind != 'O':
            return s
        if n == 'sum' and not args and not kw:
            tot = None
            for x in a.flat:
                tot = x if tot is None else E.binop('+', tot, x)
            return 0.0 if tot is None else tot
        if n in ('any', 'all') and not args and not kw:
            for x in a.flat:
                if E.truth_of(x) == (n == 'any'):
                    return n == 'any'
            return n == 'all'
        if n == 'clip':
            return clip(E, (s,) + tuple(args), {{'min': 'a_min', 'max': 'a_max'}.get(k, k): v for k, v in kw.items()}
                        if len(args) == 2 or kw else dict(kw, a_max=None))
        if n == 'fill':
            s.sym_setitem(E, Ellipsis, args[0])
            return None
        if n in ('__getitem__', '__len__', '__iter__'):
            return {'__getitem__': s.sym_getitem, '__len__': s.sym_len, '__iter__': s.sym_iter}[n](E, *args)
        for op, (on, _) in BINOPS.items():
            if n == '__%s__' % on:
                return basebinop(E, op, s, args[0])
            if n == '__r%s__' % on:
                return basebinop(E, op, args[0], s)
        raise Unsupported('array method ' + n)


def basebinop(E, op, x, y):
    """Operator of numpy itself (without the overriding methods of /repo)."""
    if op in '@' or op == '*' and any(issubclass(E.type_of(t), numpy.matrix) for t in (x, y)):
        return dot(E, x, y)
    return elementwise(E, op, x, y)


def scalar(E, x):
    return not (isinstance(x, (SArr, list, tuple)) or isinstance(x, numpy.ndarray))


def build(cls, shape, xs, kind):
    """Array of the class; an element if the class is None (scalar result)."""
    if cls is None:
        return xs[0]
    a = numpy.empty(shape, dtype=object)
    for i, x in zip(numpy.ndindex(*shape), xs):
        a[i] = x
    if cls is not numpy.ndarray:
        a = a.view(cls)
    return SArr(a, kind)


def nested(E, x, ndmax):
    """(shape, elements) of nested sequences."""
    if isinstance(x, SArr):
        return x.a.shape, list(x.a.flat)
    if isinstance(x, numpy.ndarray):
        return x.shape, [y.item() if isinstance(y, numpy.generic) else y for y in x.flat]
    if isinstance(x, (list, tuple)):
        subs = [nested(E, y, ndmax) for y in x]
        shapes = set(s for s, _ in subs)
        if len(shapes) > 1:
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        s = shapes.pop() if shapes else ()
        return (len(x),) + s, [y for _, ys in subs for y in ys]
    if isinstance(x, Sym) and not isinstance(x, (SNum, SBool)) and hasattr(x, 'sym_iter'):
        raise Unsupported('array of %r' % (x,))
    return (), [x]


def as_sarr(E, x, subok=True):
    if isinstance(x, SArr):
        if not subok and type(x.a) is not numpy.ndarray:
            return SArr(x.a.view(numpy.ndarray), x.kind)
        return x
    if id(x) in E.side:
        raise Unsupported('array of a symbolic collection')
    if isinstance(x, numpy.ndarray):
        k = dkind(x.dtype)
        a = build(type(x) if subok else numpy.ndarray, x.shape, nested(E, x, 0)[1], k)
        return a
    if isinstance(x, (list, tuple)):
        if any(isinstance(y, (set, range)) for y in x):
            raise Unsupported('array of %r' % (x,))
        shape, xs = nested(E, x, 32)
        return build(numpy.ndarray, shape, xs, join([kind_of(y) for y in xs]))
    return build(numpy.ndarray, (), [x.item() if isinstance(x, numpy.generic) else x], kind_of(x))


def convert(E, s, kind):
    """Array of another kind (the same object if nothing changes)."""
    if s.kind == kind:
        return s
    if kind == 'O':
        return SArr(s.a.copy(), 'O')
    if kind == 'f':
        return map1(E, s, E.to_float, 'f')
    if kind == 'b':
        return map1(E, s, lambda x: x if isinstance(x, SBool) else E.truth_of(x), 'b')
    if kind == 'i' and s.kind == 'b':
        return map1(E, s, lambda x: SInt(E.iterm(x)) if isinstance(x, Sym) else int(x), 'i')
    if kind == 'i' and s.kind == 'f':
        return map1(E, s, lambda x: E.trunc(x) if isinstance(x, Sym) else int(x), 'i')
    if kind == 'i' and s.kind == 'O':
        def toint(x):
            if isinstance(x, (SInt, int)):
                return x
            raise Unsupported('conversion of %r to an integer element' % (x,))
        return map1(E, s, toint, 'i')
    raise Unsupported('array conversion %s to %s' % (s.kind, kind))


def map1(E, s, f, kind):
    return build(type(s.a), s.a.shape, [f(x) for x in s.a.flat], kind)


def shadow(s):
    return numpy.ones(s.a.shape).view(type(s.a))


def broadcast(E, x, y, pyop):
    """(elements of x, elements of y, shape, class of the result) of an elementwise operation."""
    x, y = as_sarr(E, x), as_sarr(E, y)
    res = pyop(numpy.asarray(shadow(x)), numpy.asarray(shadow(y)))   # shape or ValueError
    shape = numpy.shape(res)
    cls = result_class(x, y)
    ix = numpy.broadcast_to(numpy.arange(x.a.size).reshape(x.a.shape), shape)
    iy = numpy.broadcast_to(numpy.arange(y.a.size).reshape(y.a.shape), shape)
    ex, ey = list(x.a.flat), list(y.a.flat)
    if not shape and not isinstance(res, numpy.ndarray):
        cls = None
    return [ex[i] for i in ix.flat], [ey[i] for i in iy.flat], shape, cls


def result_class(*xs):
    r = numpy.add(*[shadow(x) for x in xs]) if len(xs) == 2 else numpy.negative(shadow(xs[0])) if len(xs) == 1 else None
    if r is None:
        r = numpy.frompyfunc(lambda *a: None, len(xs), 1)(*[shadow(x) for x in xs])
    return type(r) if isinstance(r, numpy.ndarray) else None


def elementwise(E, op, x, y):
    kx, ky = as_sarr(E, x).kind, as_sarr(E, y).kind
    k = join([kx, ky])
    if k == 'b' and op in '+-*/':
        raise Unsupported('arithmetic on boolean arrays')
    x, y, shape, cls = broadcast(E, x, y, operator.add)
    if k == 'O':
        return build(cls, shape, [E.binop(op, p, q) for p, q in zip(x, y)], 'O')
    if k == 'i' and op in ('//', '%', '**'):
        raise Unsupported('%s on integer arrays' % op)
    return build(cls, shape, [fop(E, op, p, q) for p, q in zip(x, y)], 'f' if op == '/' else k)


def fop(E, op, x, y):
    """Float operation of numpy: no exceptions."""
    if op in '+-*':
        return E.binop(op, x, y)
    if op == '/':
        x, y = E.to_float(x), E.to_float(y)
        if not isinstance(x, Sym) and not isinstance(y, Sym):
            return float(numpy.divide(x, y))
        if not (isinstance(y, float) and not finite_const(y)) and E.decide(E.term(y) == 0):
            if isinstance(x, float) and x != x:
                return x
            s = x if isinstance(x, float) and not finite_const(x) else None
            if s is None:
                if E.decide(E.term(x) == 0):
                    return float('nan')
                s = 1. if E.decide(E.term(x) > 0) else -1.
            return math.copysign(float('inf'), s)
        return E.binop('/', x, y)
    if op == '**' and isinstance(y, (int, float)) and y in (2, 2., 1, 1., 3, 3.):
        r = x
        for _ in range(int(y) - 1):
            r = E.binop('*', r, x)
        return r
    raise Unsupported('%s on float arrays' % op)


def fsqrt(E, x):
    x = E.to_float(x)
    if isinstance(x, float):
        return float('nan') if x < 0 else math.sqrt(x) if x == x else x
    if E.decide(x.t < 0):
        return float('nan')
    return E.math_call('sqrt', (x,), {})


def fabs_(E, x):
    return E.call(abs, (x,), {})


def dot(E, x, y, out=None):
    if scalar(E, x) or scalar(E, y):
        return elementwise(E, '*', x, y)
    x, y = as_sarr(E, x), as_sarr(E, y)
    a, b = numpy.asarray(x.a), numpy.asarray(y.a)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(E, '*', x, y)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('dot of arrays of more than two dimensions')
    sh = numpy.dot(shadow(x), shadow(y))   # class and shape, or ValueError
    k = join([x.kind, y.kind])
    A = a.reshape(1, -1) if a.ndim == 1 else a
    B = b.reshape(-1, 1) if b.ndim == 1 else b
    res = []
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            tot = None
            for m in range(A.shape[1]):
                p = E.binop('*', A[i, m], B[m, j])
                tot = p if tot is None else E.binop('+', tot, p)
            res.append(tot if tot is not None else (0.0 if k == 'f' else 0))
    if not isinstance(sh, numpy.ndarray):
        return res[0]
    return build(type(sh), sh.shape, res, k)


# ------------------------------------------------------------ functions
def interesting(E, args):
    return any(has_sym(a, 5) or has_repo(a) for a in args)


def has_repo(x, depth=5):
    if depth and isinstance(x, (list, tuple)):
        return any(has_repo(y, depth - 1) for y in x)
    if isinstance(x, numpy.ndarray):
        return x.dtype == object
    return repo_class(type(x)) and not isinstance(x, type) and not isinstance(x, float)


def make(E, f, args, kw, subok, copy):
    kw = dict(kw)
    x = args[0]
    dtype = args[1] if len(args) > 1 else kw.pop('dtype', None)
    copy = kw.pop('copy', copy)
    subok = kw.pop('subok', subok)
    if kw or len(args) > 2:
        raise Unsupported('keyword arguments of numpy.%s' % f.__name__)
    obj = dtype is not None and numpy.dtype(dtype) == object
    if id(x) in E.side:
        raise Unsupported('array of a symbolic collection')
    if not obj and not interesting(E, (x,)):
        return f(*args, **({'dtype': dtype} if dtype is not None and len(args) < 2 else {}))
    if not isinstance(x, (SArr, numpy.ndarray, list, tuple)) and not is_num(x) and not isinstance(x, SBool):
        if hasattr(E.type_of(x), '__array__') or hasattr(E.type_of(x), '__len__') and not isinstance(x, (dict, str)):
            raise Unsupported('array of %r' % (x,))
    s = as_sarr(E, x, subok)
    same = s is x
    if dtype is not None:
        s2 = convert(E, s, dkind(dtype))
        same, s = same and s2 is s, s2
    if copy and (same or isinstance(x, SArr)):
        s = SArr(s.a.copy(), s.kind)
    return s


def asmatrix(E, args, kw):
    x, = args
    if not interesting(E, args):
        return numpy.asmatrix(x)
    s = as_sarr(E, x)
    if isinstance(s.a, numpy.matrix):
        return s
    return SArr(s.a.view(numpy.matrix), s.kind)


FROMPY = {}


def frompyfunc(E, args, kw):
    f, nin, nout = args
    u = numpy.frompyfunc(f, nin, nout)
    FROMPY[id(u)] = (u, f)
    return u


def ufunc_call(E, u, args, kw):
    if id(u) in FROMPY and FROMPY[id(u)][0] is u:
        f = FROMPY[id(u)][1]
        if kw:
            raise Unsupported('keyword arguments of a ufunc')
        return each(E, args, lambda *xs: E.call(f, xs, {}), lambda ks: 'O', u)
    if not interesting(E, args):
        return E.native(u, args, kw)
    if kw:
        raise Unsupported('keyword arguments of numpy.%s' % u.__name__)
    n = u.__name__
    if n in UNARY and len(args) == 1:
        g = UNARY[n]
        obj = [as_sarr(E, a).kind for a in args] == ['O']
        if obj:
            m = {'absolute': '__abs__', 'negative': '__neg__'}.get(n)
            if m is None:
                def h(x):
                    if isinstance(x, (float, int, SNum)):
                        raise AttributeError("'float' object has no attribute '%s'" % n)
                    return E.call(E.getattr(x, n), (), {})
                return each(E, args, h, lambda ks: 'O', u)
        return each(E, args, lambda x: g(E, x), lambda ks: ks[0] if n in ('absolute', 'negative') else 'f', u)
    if n in UBIN and len(args) == 2:
        return elementwise(E, UBIN[n], *args)
    if n == 'matmul':
        return dot(E, *args)
    if n in ('maximum', 'minimum') and len(args) == 2:
        return binary_float(E, extremum('>=' if n == 'maximum' else '<='), *args)
    if n in CMPU and len(args) == 2:
        return E.compare(CMPU[n], as_sarr(E, args[0]), args[1])
    raise Unsupported('numpy.' + n)


def extremum(op):
    def f(E, x, y):
        for v in (x, y):
            if isinstance(v, float) and v != v:
                return v
        return x if E.truth_of(E.compare(op, x, y)) else y
    return f


def clip(E, args, kw):
    names = ('a', 'a_min', 'a_max')
    d = dict(zip(names, args))
    d.update(kw)
    if len(args) > 3 or set(d) != set(names):
        raise Unsupported('numpy.clip with options')
    if not interesting(E, (d['a'], d['a_min'], d['a_max'])):
        return E.native(numpy.clip, args, kw)
    r = d['a']
    if d['a_min'] is not None:
        r = binary_float(E, extremum('>='), r, d['a_min'])
    if d['a_max'] is not None:
        r = binary_float(E, extremum('<='), r, d['a_max'])
    return r


def binary_float(E, f, x, y):
    x, y = as_sarr(E, x), as_sarr(E, y)
    k = join([x.kind, y.kind])
    if k not in 'fi':
        raise Unsupported('extremum of objects')
    r = each(E, (x, y), lambda p, q: f(E, p, q), lambda ks: k, numpy.maximum)
    return convert(E, r, k) if isinstance(r, SArr) else r


def filled(name):
    """numpy.zeros(shape), ones_like(a)...: an array that symbolic values can be assigned to."""
    f = getattr(numpy, name)

    def m(E, args, kw):
        if name.endswith('_like') and args and isinstance(args[0], SArr):
            s = args[0]
            if len(args) > 1 or kw:
                raise Unsupported('numpy.%s with options' % name)
            a = f(numpy.zeros(s.a.shape).view(type(s.a)))
            kind = s.kind
            if kind == 'O':
                raise Unsupported('numpy.%s of an array of objects' % name)
        else:
            if has_sym(args) or has_sym(list(kw.values())):
                raise Unsupported('numpy.%s with symbolic arguments' % name)
            a = f(*args, **kw)
            kind = 'O' if a.dtype == object else a.dtype.kind
            if kind not in 'fO':
                return a
        els = [x.item() if isinstance(x, numpy.generic) else x for x in a.flat]
        if name.startswith('empty') and kind == 'f':
            els = [SFloat(E.fresh('uninit')) for _ in els]
        return build(type(a), a.shape, els, kind)
    return m


UNARY = {'sqrt': fsqrt, 'absolute': fabs_, 'negative': lambda E, x: E.unary('-', x), 'fabs': fabs_,
         'square': lambda E, x: E.binop('*', x, x), 'positive': lambda E, x: x}
CMPU = {'equal': '==', 'not_equal': '!=', 'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>='}
UBIN = {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'true_divide': '/', 'power': '**'}


def each(E, args, f, kind, u):
    ss = [as_sarr(E, a) for a in args]
    sh = numpy.frompyfunc(lambda *a: None, len(ss), 1)(*[shadow(s) for s in ss])
    shape = numpy.shape(sh)
    idx = [list(numpy.broadcast_to(numpy.arange(s.a.size).reshape(s.a.shape), shape).flat) for s in ss]
    els = [list(s.a.flat) for s in ss]
    res = [f(*[e[i[j]] for e, i in zip(els, idx)]) for j in range(len(idx[0]))]
    if u.nout != 1:
        raise Unsupported('ufunc with several results')
    return build(type(sh) if isinstance(sh, numpy.ndarray) else None, shape, res, kind([s.kind for s in ss]))


def diag(E, args, kw):
    if kw or len(args) != 1:
        raise Unsupported('numpy.diag')
    if not interesting(E, args):
        return numpy.diag(*args)
    s = as_sarr(E, args[0])
    if s.a.ndim == 1:
        n = len(s.a)
        return build(numpy.ndarray, (n, n), [s.a[i] if i == j else 0.0 for i in range(n) for j in range(n)], s.kind)
    return s.like(numpy.diagonal(s.a).copy())


def structural(name):
    def m(E, args, kw):
        f = getattr(numpy, name)
        if not interesting(E, args):
            return E.native(f, args, kw)
        s = as_sarr(E, args[0])
        return s.like(f(s.a, *args[1:], **kw))
    return m


def isscalar(E, args, kw):
    x, = args
    if isinstance(x, (SNum, SBool)):
        return True
    if isinstance(x, Sym):
        return False
    return numpy.isscalar(x)


def outer(E, args, kw):
    if kw or not interesting(E, args):
        return E.native(numpy.outer, args, kw)
    x, y = as_sarr(E, args[0], False), as_sarr(E, args[1], False)
    return elementwise(E, '*', x.like(x.a.ravel()[:, None]), y.like(y.a.ravel()[None, :]))


def where(E, args, kw):
    if len(args) != 3 or kw or not interesting(E, args):
        return E.native(numpy.where, args, kw)
    c, x, y = [as_sarr(E, a, False) for a in args]
    k = join([x.kind, y.kind])
    r = each(E, (c, x, y), lambda c, p, q: p if E.truth_of(c) else q, lambda ks: k, numpy.frompyfunc(lambda *a: 0, 3, 1))
    return convert(E, r, k) if k == 'f' and isinstance(r, SArr) else r


def shape(E, args, kw):
    return as_sarr(E, args[0]).a.shape


def npsize(E, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported('numpy.size')
    return as_sarr(E, args[0]).a.size


# ------------------------------------------------------------ linear algebra, by contract
def mat(E, x, what, square=True):
    s = convert(E, as_sarr(E, x), 'f') if as_sarr(E, x).kind in 'fib' else None
    if s is None:
        raise TypeError("ufunc '%s' did not contain a loop with signature matching types" % what)
    if s.a.ndim != 2:
        if s.a.ndim < 2:
            raise numpy.linalg.LinAlgError('%d-dimensional array given. Array must be at least two-dimensional' % s.a.ndim)
        raise Unsupported('%s of a stack of matrices' % what)
    if square and s.a.shape[0] != s.a.shape[1]:
        raise numpy.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    a = numpy.asarray(s.a)
    for v in a.flat:
        if isinstance(v, float) and not finite_const(v):
            raise Unsupported('%s of a matrix with non-finite elements' % what)
    return s, a


def tm(E, a):
    return [[E.term(x) for x in row] for row in a]


def mmul(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(1, len(B))), A[i][0] * B[0][j]) for j in range(len(B[0]))] for i in range(len(A))]


def fresh_array(E, name, shape, cls=None):
    xs = [SFloat(E.fresh('%s_%s' % (name, '_'.join(map(str, i))))) for i in numpy.ndindex(*shape)]
    return build(cls or numpy.ndarray, shape, xs, 'f')


def assumed(E, what):
    E.assumptions[what] = E.assumptions.get(what, 0) + 1


def eigh(E, args, kw):
    if kw or len(args) != 1:
        raise Unsupported('numpy.linalg.eigh with options')
    if not interesting(E, args):
        return E.native(numpy.linalg.eigh, args, kw)
    s, a = mat(E, args[0], 'eigh')
    n = a.shape[0]
    A = tm(E, a)
    w, V = fresh_array(E, 'w', (n,)), fresh_array(E, 'V', (n, n), type(s.a) if isinstance(s.a, numpy.matrix) else None)
    assumed(E, 'numpy.linalg.eigh(A) returns w (ascending), V with V diag(w) V^T = A (symmetric, from its lower triangle) '
               'and V orthogonal')
    W, U = [x.t for x in w.a], tm(E, numpy.asarray(V.a))
    rec = dict(A=A, w=W, V=U, n=n)
    E.eighs = getattr(E, 'eighs', []) + [rec]
    for i in range(n):
        for j in range(i + 1):
            E.fact(sum((U[i][k] * U[j][k] * W[k] for k in range(n)), rv(0)) == A[i][j])
    if getattr(E, 'eigh_psd', False):
        for x in W:
            E.fact(x >= 0)
    return numpy.linalg.linalg.EighResult(w, V) if hasattr(numpy.linalg.linalg, 'EighResult') else (w, V)


def inv(E, args, kw):
    if kw or len(args) != 1:
        raise Unsupported('numpy.linalg.inv with options')
    if not interesting(E, args):
        return E.native(numpy.linalg.inv, args, kw)
    s, a = mat(E, args[0], 'inv')
    n = a.shape[0]
    key = ('inv',) + tuple(tuple(x.get_id() for x in r) for r in tm(E, a))
    if E.choose(2, 'singular matrix') == 1:
        raise numpy.linalg.LinAlgError('Singular matrix')
    assumed(E, 'numpy.linalg.inv(A) returns B with A B = B A = identity, or raises LinAlgError')
    B = fresh_array(E, 'inv', (n, n), type(s.a) if isinstance(s.a, numpy.matrix) else None)
    E.linalg.append(('inv', s, B, ()))
    return B


def pinv(E, args, kw):
    if not interesting(E, args):
        return E.native(numpy.linalg.pinv, args, kw)
    s, a = mat(E, args[0], 'pinv', False)
    assumed(E, 'numpy.linalg.pinv(A, rcond) returns the pseudo-inverse of A for that rcond')
    P = fresh_array(E, 'pinv', a.shape[::-1], type(s.a) if isinstance(s.a, numpy.matrix) else None)
    E.linalg.append(('pinv', s, P, (tuple(args[1:]), tuple(sorted(kw.items())))))
    return P


def install(E):
    """Adds the models to an engine."""
    if numpy is None:
        return
    m = E.models
    from numpy.lib import function_base
    ops.INTERPRETED_FILES.add(function_base.__file__)
    E.linalg = []
    m[numpy.array] = lambda E, a, k: make(E, numpy.array, a, k, False, True)
    m[numpy.asarray] = lambda E, a, k: make(E, numpy.asarray, a, k, False, False)
    m[numpy.asanyarray] = lambda E, a, k: make(E, numpy.asanyarray, a, k, True, False)
    m[numpy.asmatrix] = m[numpy.mat] = asmatrix
    m[numpy.diag] = diag
    m[numpy.isscalar] = isscalar
    m[numpy.dot] = m[numpy.matmul] = lambda E, a, k: dot(E, *a, **k)
    m[numpy.outer] = outer
    m[numpy.where] = where
    m[numpy.clip] = clip
    for n in ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like'):
        m[getattr(numpy, n)] = filled(n)
    m[numpy.shape] = shape
    m[numpy.size] = npsize
    m[numpy.frompyfunc] = frompyfunc
    m[numpy.linalg.eigh] = eigh
    m[numpy.linalg.inv] = inv
    m[numpy.linalg.pinv] = pinv
    for n in ('transpose', 'reshape', 'ravel', 'diagonal', 'squeeze', 'expand_dims', 'atleast_2d', 'copy'):
        m[getattr(numpy, n)] = structural(n)
    E.objmodels[numpy.ufunc] = ufunc_call
