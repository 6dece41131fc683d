# -*- coding: utf-8 -*-
"""Object protocol of the interpreted program: attribute access, calls, operators, containers.

Real Python objects are used throughout (real classes of /repo, real lists and dicts); symbolic
values (engine.Sym) appear inside them.  Anything outside the modelled subset raises Unsupported.
"""
import builtins, collections, collections.abc, copy, inspect, itertools, math, numbers, operator, re, sys, types, warnings
import z3
from . import engine as EN
from .engine import (Engine, EngineSignal, PathEnd, Unsupported, Restart, Sym, SFloat, SInt, SBool, SNum, SComplex,
                     Opaque, SFunc, is_num, finite_const, rv)
from . import interp
from .interp import Frame, SGen, bind_args, interpretable, REPO, POISON
from . import parsing
from .strings import SStr

# pure Python standard library modules that are interpreted too (the code that really runs)
INTERPRETED_FILES = {copy.__file__}
_MISSING = object()


def is_interp(f):
    if not isinstance(f, types.FunctionType):
        return False
    return interpretable(f) or f.__code__.co_filename in INTERPRETED_FILES


def repo_class(cls):
    """Does the class come from /repo (or a harness of ours: attribute __pyvc__)?"""
    for c in cls.__mro__:
        m = sys.modules.get(c.__module__)
        if m is not None and (getattr(m, '__file__', None) or '').startswith(REPO):
            return True
        if '__pyvc__' in c.__dict__:
            return True
    return False


def raw_lookup(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            return c.__dict__[name]
    return _MISSING


def has_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (tuple, list, set, frozenset)):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_sym(y, depth - 1) for y in x.values())
    if isinstance(x, slice):
        return any(isinstance(y, Sym) for y in (x.start, x.stop, x.step))
    return False


class SMeth(Sym):
    """Bound method of a symbolic value."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    pytype = types.MethodType

    def __hash__(self):
        return id(self)

    def __call__(self, *a, **k):
        return EN.ENGINE.call(self, a, k)


class MapIter(object):
    """map() with an interpreted function."""

    def __init__(self, E, f, its):
        self.E, self.f, self.its = E, f, [E.get_iter(x) for x in its]

    def __iter__(self):
        return self

    def __next__(self):
        args = [self.E.iter_next(it, None, None) for it in self.its]
        return self.E.call(self.f, tuple(args), {})


BINOPS = {'+': ('add', operator.add), '-': ('sub', operator.sub), '*': ('mul', operator.mul),
          '/': ('truediv', operator.truediv), '//': ('floordiv', operator.floordiv), '%': ('mod', operator.mod),
          '**': ('pow', operator.pow), '<<': ('lshift', operator.lshift), '>>': ('rshift', operator.rshift),
          '&': ('and', operator.and_), '|': ('or', operator.or_), '^': ('xor', operator.xor),
          '@': ('matmul', operator.matmul)}
IBIN = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv,
        '//': operator.ifloordiv, '%': operator.imod, '**': operator.ipow, '|': operator.ior, '&': operator.iand,
        '^': operator.ixor, '<<': operator.ilshift, '>>': operator.irshift, '@': operator.imatmul}
CMPS = {'<': ('lt', 'gt', operator.lt), '<=': ('le', 'ge', operator.le), '>': ('gt', 'lt', operator.gt),
        '>=': ('ge', 'le', operator.ge), '==': ('eq', 'eq', operator.eq), '!=': ('ne', 'ne', operator.ne)}

MUTATORS = {list: {'append', 'extend', 'pop', 'insert', 'remove', 'clear', 'sort', 'reverse', '__setitem__', '__delitem__'},
            dict: {'pop', 'popitem', 'update', 'setdefault', 'clear', '__setitem__', '__delitem__'},
            set: {'add', 'update', 'discard', 'remove', 'pop', 'clear', 'intersection_update', 'difference_update'},
            collections.deque: {'append', 'appendleft', 'pop', 'popleft', 'extend', 'extendleft', 'clear'}}


class Ops(Engine):
    """Engine + object protocol."""

    CALL_LIMIT = 60000

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Sym):
            return self.sym_getattr(o, name)
        h = self.views.get(id(o)) if self.views else None
        cls = type(o)
        if isinstance(o, type) or isinstance(o, types.ModuleType):
            return getattr(o, name)
        if repo_class(cls):
            raw = raw_lookup(cls, name)
            if isinstance(raw, property):
                if raw.fget is None:
                    raise AttributeError(name)
                return self.call(raw.fget, (o,), {})
            if isinstance(raw, types.FunctionType):
                return types.MethodType(raw, o)
            if isinstance(raw, SFunc):
                return types.MethodType(raw, o)
            lazy = self.abstract.get(id(o))
            if lazy is not None and lazy[0] is o:
                lazy[1](self, o, name)
            return getattr(o, name)
        if id(o) in self.side:
            return self.side_getattr(o, name)
        return getattr(o, name)

    def side_getattr(self, o, name):
        return SideMeth(self, o, name)

    def sym_getattr(self, o, name):
        if isinstance(o, (Opaque, SFunc)):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, BaseException):
                    raise v
                return v
            if isinstance(o, SFunc) and name in ('__name__', '__qualname__', 'name'):
                if name == 'name':
                    raise AttributeError(name)
                return o.name
            if isinstance(o, SFunc) and name == '__doc__':
                return None
            if isinstance(o, Opaque) and o.cls is not object and hasattr(o.cls, name):
                return SMeth(o, name)
            if name == '__class__':
                return o.pytype
            if isinstance(o, Opaque) and o.attrs.get('closed'):
                raise AttributeError(name)
            raise Unsupported('attribute %s of %r' % (name, o))
        if name == '__class__':
            return o.pytype
        t = getattr(o, 'sym_attr', None)
        if t is not None:
            return t(self, name)
        if hasattr(o.pytype, name):
            if name in ('real', 'imag') and isinstance(o, SNum):
                return o if name == 'real' else type(o)(0 * o.t)
            return SMeth(o, name)
        raise AttributeError('%s has no attribute %s' % (o.pytype.__name__, name))

    def super_getattr(self, cls, o, name):
        mro = type(o).__mro__ if not isinstance(o, type) else o.__mro__
        i = mro.index(cls) + 1
        for c in mro[i:]:
            if name in c.__dict__:
                raw = c.__dict__[name]
                if isinstance(raw, property):
                    return self.call(raw.fget, (o,), {})
                if isinstance(raw, types.FunctionType):
                    return types.MethodType(raw, o)
                return getattr(super(cls, o), name)
        return getattr(super(cls, o), name)

    def setattr(self, o, name, v):
        if isinstance(o, Sym):
            if isinstance(o, SFunc):
                o.attrs[name] = v
                return
            if hasattr(o, 'sym_setattr'):
                return o.sym_setattr(self, name, v)
            raise AttributeError('%s of a symbolic value' % name)
        cls = type(o)
        if not isinstance(o, (type, types.ModuleType)) and repo_class(cls):
            raw = raw_lookup(cls, name)
            if isinstance(raw, property):
                if raw.fset is None:
                    raise AttributeError("property '%s' has no setter" % name)
                self.call(raw.fset, (o, v), {})
                return
            sa = raw_lookup(cls, '__setattr__')
            if isinstance(sa, types.FunctionType):
                self.call(sa, (o, name, v), {})
                return
            self.log_write(o, ('attr', name))
            if id(o) in self.abstract and self.abstract[id(o)][0] is o:
                # materialise what the assignment does not overwrite
                pass
            object.__setattr__(o, name, v)
            return
        if id(o) in self.side:
            self.side_setattr(o, name, v)
            return
        if isinstance(o, (type, types.ModuleType)):
            raise Unsupported('assignment to %s.%s' % (o.__name__, name))
        self.log_write(o, ('attr', name))
        setattr(o, name, v)

    # ------------------------------------------------------------ log
    def log_write(self, o, kind):
        self.writes.append((o, kind))

    def born(self, o):
        self.births[id(o)] = len(self.births)
        self.keep.append(o)
        return o

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None, depth=0):
        kwargs = kwargs or {}
        self.ncalls += 1
        if self.ncalls > self.CALL_LIMIT:
            raise Unsupported('too many calls on a path')
        try:
            c = self.contracts.get(f) if not isinstance(f, Sym) else None
        except TypeError:
            c = None
        if c is not None:
            self.contract_uses[getattr(f, '__qualname__', repr(f))] = \
                self.contract_uses.get(getattr(f, '__qualname__', repr(f)), 0) + 1
            return c(self, args, kwargs)
        if isinstance(f, SFunc):
            f.calls.append((args, kwargs))
            return f.handler(self, args, kwargs)
        if isinstance(f, SMeth):
            return self.sym_method(f.obj, f.name, args, kwargs)
        if isinstance(f, Sym):
            h = getattr(f, 'sym_call', None)
            if h is not None:
                return h(self, args, kwargs)
            if isinstance(f, SFloat) and f.cls is not None:
                raw = raw_lookup(f.cls, '__call__')
                if is_interp(raw):
                    return self.call(raw, (f,) + tuple(args), kwargs, depth)
            raise TypeError('%s object is not callable' % f.pytype.__name__)
        if isinstance(f, SideMeth):
            return f.invoke(args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, (f.__self__,) + tuple(args), kwargs, depth)
        if isinstance(f, types.FunctionType):
            m = self.models.get(f)
            if m is not None:
                return m(self, args, kwargs)
            if is_interp(f):
                return self.run_function(f, args, kwargs, depth)
            return self.native(f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs, depth)
        m = None
        try:
            m = self.models.get(f)
        except TypeError:
            pass
        if m is not None:
            return m(self, args, kwargs)
        if isinstance(f, types.WrapperDescriptorType) or isinstance(f, types.MethodDescriptorType):
            oc = f.__objclass__
            if oc in (float, int):
                return self.float_slot(oc, f.__name__, args, kwargs)
            if oc is str:
                return self.str_method(args[0], f.__name__, args[1:], kwargs)
            if oc in (list, dict, set, collections.deque) and args and id(args[0]) in self.side:
                return self.side_getattr(args[0], f.__name__).invoke(args[1:], kwargs)
            return self.native(f, args, kwargs)
        if isinstance(f, (types.BuiltinMethodType, types.MethodWrapperType)):
            me = getattr(f, '__self__', None)
            if me is not None and not isinstance(me, types.ModuleType):
                return self.builtin_method(f, me, args, kwargs)
            return self.native(f, args, kwargs)
        cls = type(f)
        raw = raw_lookup(cls, '__call__')
        if is_interp(raw):
            return self.call(raw, (f,) + tuple(args), kwargs, depth)
        h = self.objmodels.get(cls)
        if h is not None:
            return h(self, f, args, kwargs)
        return self.native(f, args, kwargs)

    def run_function(self, f, args, kwargs, depth):
        if depth > self.max_depth:
            raise RecursionError('maximum recursion depth exceeded')
        code = f.__code__
        if code.co_filename.startswith(REPO) or f.__globals__.get('__file__', '').startswith(REPO):
            n = f.__module__ + '.' + f.__qualname__
            self.functions[n] = self.functions.get(n, 0) + 1
        locs = bind_args(f, args, kwargs)
        fr = Frame(self, f, locs, depth)
        if code.co_flags & 0x20:
            return SGen(self, fr)
        if code.co_flags & 0x280:
            raise Unsupported('coroutine')
        r = fr.run()
        return r[1]

    def native(self, f, args, kwargs):
        """A function implemented outside /repo, called for real."""
        if f in NATIVE_OK or not any(has_sym(a) for a in args) and not any(has_sym(a) for a in kwargs.values()) \
                and not any(id(a) in self.side for a in args):
            return f(*args, **kwargs)
        raise Unsupported('call of %r with symbolic arguments' % (getattr(f, '__qualname__', None) or f,))

    def builtin_method(self, f, me, args, kwargs):
        name = f.__name__
        if isinstance(me, Sym):
            return self.sym_method(me, name, args, kwargs)
        if name == '__reduce_ex__' and repo_class(type(me)) and object.__reduce_ex__ in self.models:
            return self.models[object.__reduce_ex__](self, (me,) + tuple(args), kwargs)
        if id(me) in self.side:
            return self.side_getattr(me, name).invoke(args, kwargs)
        for t, ms in MUTATORS.items():
            if isinstance(me, t) and name in ms:
                self.log_write(me, ('method', name))
                if t is list and name == 'extend':
                    self.list_extend(me, args[0])
                    return None
                if t is dict and name == 'update':
                    for a in args[:1]:
                        self.dict_update(me, a)
                    if kwargs:
                        self.dict_update(me, kwargs)
                    return None
                if t in (set, dict) and args and any(id(a) in self.side for a in args):
                    raise Unsupported('%s() of a symbolic collection' % name)
                if t is set and name == 'update':
                    for a in args:
                        for x in self.iterate(a):
                            self.set_add(me, x)
                    return None
                return f(*args, **kwargs)
        if isinstance(me, str):
            return self.str_method(me, name, args, kwargs)
        if isinstance(me, re.Pattern) and any(isinstance(a, Sym) for a in args):
            return parsing.pattern_method(self, me, name, args, kwargs)
        if isinstance(me, (float, int)) and not isinstance(me, bool) and any(isinstance(a, Sym) for a in args):
            return self.float_slot(type(me), name, (me,) + tuple(args), kwargs)
        if isinstance(me, (list, tuple, dict, set, frozenset, collections.deque)):
            if isinstance(me, dict) and name in ('get', '__getitem__', '__contains__', 'items', 'keys', 'values', 'copy'):
                return f(*args, **kwargs)
            if any(id(a) in self.side or isinstance(a, SideView) for a in args):
                if isinstance(me, (set, frozenset)) and name in ('intersection', 'union', 'difference'):
                    return self.set_op(name, me, args)
                raise Unsupported('%s.%s() of a symbolic collection' % (type(me).__name__, name))
            return f(*args, **kwargs)
        if isinstance(me, type) and me in (dict, float, int, str, object) and name in ('fromkeys', '__new__'):
            if name == '__new__' and me is object:
                return f(*args, **kwargs)
            return self.native(f, args, kwargs)
        return self.native(f, args, kwargs)

    def set_op(self, name, me, args):
        from .coll import setop
        r = me
        for a in args:
            r = setop(self, {'intersection': 'and', 'union': 'or', 'difference': 'sub'}[name], r, a)
        return r

    def instantiate(self, cls, args, kwargs, depth=0):
        m = self.models.get(cls)
        if m is not None:
            return m(self, args, kwargs)
        if issubclass(cls, float):
            if not args:
                return cls()
            v = self.to_float(args[0])
            if isinstance(v, Sym):
                return SFloat(v.t, cls) if cls is not float else SFloat(v.t)
            return cls(v)
        if issubclass(cls, BaseException):
            init = raw_lookup(cls, '__init__')
            if not is_interp(init):
                return cls(*[a if not isinstance(a, Sym) else repr(a) for a in args])
        if repo_class(cls):
            new = raw_lookup(cls, '__new__')
            if isinstance(new, staticmethod):
                new = new.__func__
            if new is object.__new__ or new is _MISSING:
                if issubclass(cls, (dict, list, tuple, set)):
                    o = cls.__new__(cls)
                else:
                    o = object.__new__(cls)
            elif is_interp(new):
                o = self.call(new, (cls,) + tuple(args), kwargs, depth + 1)
                if not isinstance(o, cls):
                    return o
            else:
                return self.native(cls, args, kwargs)
            self.born(o)
            init = raw_lookup(cls, '__init__')
            if is_interp(init):
                r = self.call(init, (o,) + tuple(args), kwargs, depth + 1)
                if r is not None:
                    raise TypeError('__init__() should return None')
            elif init is not object.__init__:
                raise Unsupported('__init__ of %s' % cls.__name__)
            elif args or kwargs:
                raise TypeError('%s() takes no arguments' % cls.__name__)
            return o
        if cls in (list, tuple, set, frozenset, dict, zip, enumerate, reversed, collections.defaultdict, filter,
                   itertools.chain, itertools.repeat, collections.deque, range, slice, collections.OrderedDict,
                   itertools.count, itertools.islice, object, collections.Counter, types.CellType):
            return self.build_container(cls, args, kwargs)
        return self.native(cls, args, kwargs)

    def build_container(self, cls, args, kwargs):
        if any(id(a) in self.side or isinstance(a, (SideView, SideIter)) for a in args):
            return self.side_build(cls, args, kwargs)
        if cls is dict and len(args) == 1 and isinstance(args[0], (SGen, MapIter)):
            d = self.born({})
            self.fill_dict(d, args[0])
            for k, v in kwargs.items():
                self.setitem(d, k, v)
            return d
        if cls is range and has_sym(args):
            args = tuple(self.concretize(a) for a in args)
        if cls in (list, tuple, set, frozenset) and args:
            args = (self.iterate(args[0]),)
        o = cls(*args, **kwargs)
        return self.born(o)

    def fill_dict(self, d, pairs):
        """d[k] = v for (k, v) in pairs; an iteration over a symbolic map is driven here like by a loop."""
        self.aware = getattr(self, 'aware', 0) + 1
        try:
            while True:
                try:
                    x = self.iter_next(pairs, None, None)
                except StopIteration:
                    break
                k, v = self.iterate(x)
                self.setitem(d, k, v)
        finally:
            self.aware -= 1

    def side_build(self, cls, args, kwargs):
        raise Unsupported('%s() of a symbolic collection' % cls.__name__)

    def concretize(self, x):
        """Concrete value of a symbolic integer (forks over the small feasible values)."""
        if not isinstance(x, (SInt, SBool)):
            return x
        t = z3.simplify(self.iterm(x))
        if z3.is_int_value(t):
            return t.as_long()
        for v in range(-40, 41):
            if self.decide(t == v):
                return v
        raise Unsupported('unbounded symbolic integer where a concrete one is needed')

    # ------------------------------------------------------------ operators
    def type_of(self, o):
        return o.pytype if isinstance(o, Sym) else type(o)

    def dunder(self, o, name):
        """Interpreted special method of the type of o, or None."""
        if isinstance(o, Sym):
            c = getattr(o, 'cls', None)
            if c is None:
                return None
            f = raw_lookup(c, name)
            return f if is_interp(f) else None
        if isinstance(o, (int, float, str, list, tuple, dict, type(None))) and not repo_class(type(o)):
            return None
        f = raw_lookup(type(o), name)
        if is_interp(f) or isinstance(f, SFunc):
            return f
        return None

    def has_repo_op(self, a, name):
        return self.dunder(a, name) is not None

    def binop(self, op, a, b):
        inplace = op.endswith('=') and op not in ('==', '!=', '<=', '>=')
        if inplace:
            op = op[:-1]
        n, pyop = BINOPS[op]
        if inplace and isinstance(a, Sym) and hasattr(a, 'sym_inplace'):
            return a.sym_inplace(self, op, b)
        if inplace:
            d = self.dunder(a, '__i%s__' % n)
            if d is not None:
                r = self.call(d, (a, b), {})
                if r is not NotImplemented:
                    return r
            elif isinstance(a, (list, set, dict, collections.deque)):
                if id(a) in self.side or id(b) in self.side:
                    return self.side_inplace(op, a, b)
                self.log_write(a, ('method', '__i%s__' % n))
                if isinstance(a, list) and op == '+':
                    self.list_extend(a, b)
                    return a
                return IBIN[op](a, b)
        if isinstance(a, Sym) and hasattr(a, 'sym_binop'):
            r = a.sym_binop(self, op, b, False)
            if r is not NotImplemented:
                return r
        if isinstance(b, Sym) and hasattr(b, 'sym_binop'):
            r = b.sym_binop(self, op, a, True)
            if r is not NotImplemented:
                return r
        da, db = self.dunder(a, '__%s__' % n), self.dunder(b, '__r%s__' % n)
        if da is not None or db is not None:
            ta, tb = self.type_of(a), self.type_of(b)
            order = [(da, a, b), (db, b, a)]
            if ta is tb:
                order = [(da, a, b)]
            elif issubclass(tb, ta) and db is not None and db is not raw_lookup(ta, '__r%s__' % n):
                order.reverse()
            for d, x, y in order:
                if d is None:
                    if x is a and is_num(a) and (is_num(b)):
                        break
                    continue
                r = self.call(d, (x, y), {})
                if r is not NotImplemented:
                    return r
            else:
                # the built-in side may handle it
                if da is None and not is_num(a):
                    try:
                        r = getattr(type(a), '__%s__' % n)(a, b)
                    except (AttributeError, TypeError):
                        r = NotImplemented
                    if r is not NotImplemented:
                        return r
                raise TypeError('unsupported operand type(s) for %s: %s and %s' % (op, ta.__name__, tb.__name__))
        if isinstance(a, str) and op == '%' or isinstance(a, str) and op == '+' and isinstance(b, Sym):
            return self.str_binop(op, a, b)
        if is_num(a) and is_num(b) and (isinstance(a, Sym) or isinstance(b, Sym)):
            r = self.num_binop(op, a, b)
            if r is NotImplemented:
                raise TypeError('unsupported operand')
            return r
        if isinstance(a, Sym) or isinstance(b, Sym):
            if is_num(a) and isinstance(b, (str, type(None), tuple, dict)) or is_num(b) and isinstance(a, (type(None), dict)) \
                    or is_num(b) and isinstance(a, (str, tuple, list)) and op in '+-/':
                raise TypeError('unsupported operand type(s) for %s' % op)
            if is_array(a) or is_array(b):
                return pyop(a, b)
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                h = self.opaque_binop(op, a, b)
                if h is not None:
                    return h
            raise Unsupported('%s between %r and %r' % (op, a, b))
        if id(a) in self.side or id(b) in self.side:
            raise Unsupported('operator %s on a symbolic collection' % op)
        if inplace:
            return IBIN[op](a, b)
        return pyop(a, b)

    def opaque_binop(self, op, a, b):
        for x, y, r in ((a, b, False), (b, a, True)):
            if isinstance(x, Opaque) and 'binop' in x.attrs:
                return x.attrs['binop'](self, op, y, r)

    def side_inplace(self, op, a, b):
        if op == '+' and isinstance(a, list):
            self.list_extend(a, b)
            return a
        raise Unsupported('in-place %s on a symbolic collection' % op)

    def unary(self, op, a):
        if isinstance(a, (SNum, SBool)):
            if op == '-':
                return self.num_neg(a)
            if op == '+':
                return a if not isinstance(a, SBool) else SInt(self.iterm(a))
            raise Unsupported('unary ' + op)
        n = {'-': '__neg__', '+': '__pos__', '~': '__invert__'}[op]
        d = self.dunder(a, n)
        if d is not None:
            return self.call(d, (a,), {})
        if isinstance(a, Sym):
            h = getattr(a, 'sym_unary', None)
            if h:
                return h(self, op)
            if isinstance(a, SFunc) or isinstance(a, Opaque) and a.attrs.get('closed'):
                raise TypeError('bad operand type for unary %s' % op)
            raise Unsupported('unary %s on %r' % (op, a))
        return {'-': operator.neg, '+': operator.pos, '~': operator.invert}[op](a)

    def truth_of(self, v):
        if isinstance(v, Sym):
            h = getattr(v, 'sym_truth', None)
            if h:
                return self.decide(h(self))
            return self.truth(v)
        if isinstance(v, bool) or v is None:
            return bool(v)
        d = self.dunder(v, '__bool__')
        if d is not None:
            r = self.call(d, (v,), {})
            if isinstance(r, SBool):
                return self.decide(r.t)
            if not isinstance(r, bool):
                raise TypeError('__bool__ should return bool')
            return r
        d = self.dunder(v, '__len__')
        if d is not None:
            return self.truth_of(self.call(d, (v,), {}))
        if id(v) in self.side:
            return self.side_truth(v)
        return bool(v)

    def not_(self, v):
        if isinstance(v, SBool):
            return SBool(z3.Not(v.t))
        return not self.truth_of(v)

    def compare(self, op, a, b):
        n, rn, pyop = CMPS[op]
        if isinstance(a, Sym) and hasattr(a, 'sym_compare'):
            r = a.sym_compare(self, op, b)
            if r is not NotImplemented:
                return r
        if isinstance(b, Sym) and hasattr(b, 'sym_compare'):
            r = b.sym_compare(self, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op), a)
            if r is not NotImplemented:
                return r
        da, db = self.dunder(a, '__%s__' % n), self.dunder(b, '__%s__' % rn)
        if da is None and op == '!=' and not isinstance(a, Sym) and self.dunder(a, '__eq__') is not None \
                and raw_lookup(type(a), '__ne__') is object.__ne__:
            return self.not_(self.compare('==', a, b))
        if da is not None or db is not None:
            ta, tb = self.type_of(a), self.type_of(b)
            order = [(da, a, b), (db, b, a)]
            if ta is not tb and issubclass(tb, ta):
                order.reverse()
            for d, x, y in order:
                if d is None:
                    if isinstance(x, Opaque) and 'compare' in x.attrs:
                        o2 = op if x is a else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                        r = x.attrs['compare'](self, o2, y)
                        if r is not NotImplemented:
                            return r
                    continue
                r = self.call(d, (x, y), {})
                if r is not NotImplemented:
                    return r
            if op == '==':
                return a is b
            if op == '!=':
                return a is not b
            raise TypeError("'%s' not supported between instances of %s and %s" % (op, ta.__name__, tb.__name__))
        if is_num(a) and is_num(b):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return pyop(a, b)
            if isinstance(a, SBool) and isinstance(b, (bool, SBool)) and op == '==':
                return a == b
            return self.num_compare(op, a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if is_array(a) or is_array(b):
                return pyop(a, b)
            for x, y, o2 in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
                if isinstance(x, Opaque) and 'compare' in x.attrs:
                    r = x.attrs['compare'](self, o2, y)
                    if r is not NotImplemented:
                        return r
            if op == '==':
                if a is b:
                    return True
                if isinstance(a, (Opaque, SFunc)) and isinstance(b, (Opaque, SFunc)):
                    return False
                if self.incomparable(a, b):
                    return False
                raise Unsupported('== between %r and %r' % (a, b))
            if op == '!=':
                return self.not_(self.compare('==', a, b))
            if self.incomparable(a, b):
                raise TypeError('not supported between instances')
            raise Unsupported('comparison between %r and %r' % (a, b))
        return pyop(a, b)

    def incomparable(self, a, b):
        def kind(x):
            if isinstance(x, (SNum, SBool, int, float, complex)):
                return 'num'
            if isinstance(x, (str, bytes, tuple, list, dict, type(None), set, type)):
                return type(x).__name__
            if isinstance(x, SFunc):
                return 'func'
            if isinstance(x, Opaque) and x.cls in (str, bytes, tuple, list):
                return x.cls.__name__
            return None
        ka, kb = kind(a), kind(b)
        return ka is not None and kb is not None and ka != kb

    def contains(self, c, x):
        if isinstance(c, Sym) and hasattr(c, 'sym_contains'):
            return c.sym_contains(self, x)
        d = self.dunder(c, '__contains__')
        if d is not None:
            return self.call(d, (c, x), {})
        if id(c) in self.side:
            return self.side_contains(c, x)
        if isinstance(c, SideView):
            return c.contains(x)
        if isinstance(c, str) and isinstance(x, Sym):
            if isinstance(x, SStr):
                return parsing.native(self, lambda a, b: b in a, c, x)
            raise Unsupported('in on strings')
        if isinstance(c, (list, tuple, collections.deque)) and (self.dunder(x, '__eq__') is not None or any(self.dunder(y, '__eq__') is not None for y in c)):
            for y in list(c):
                if y is x or self.truth_of(self.compare('==', y, x)):
                    return True
            return False
        if isinstance(x, Sym) and isinstance(c, (list, tuple, set, frozenset)):
            if isinstance(x, (Opaque, SFunc)):
                return any(y is x for y in c)
            if isinstance(c, (set, frozenset)):
                c = list(c)
            for y in c:
                if y is x:
                    return True
                r = self.compare('==', x, y)
                if self.truth_of(r):
                    return True
            return False
        return x in c

    def getitem(self, o, k):
        if isinstance(o, Sym):
            h = getattr(o, 'sym_getitem', None)
            if h:
                return h(self, k)
            if isinstance(o, Opaque) and 'getitem' in o.attrs:
                return o.attrs['getitem'](self, k)
            if isinstance(o, (SNum, SBool)):
                raise TypeError('%s object is not subscriptable' % o.pytype.__name__)
            raise Unsupported('subscript of %r' % o)
        d = self.dunder(o, '__getitem__')
        if d is not None:
            return self.call(d, (o, k), {})
        if id(o) in self.side:
            return self.side_getitem(o, k)
        if isinstance(k, (SInt, SBool)) and isinstance(o, (list, tuple, str)):
            t = self.iterm(k)
            n = len(o)
            for i in range(-n, n):
                if self.decide(t == i):
                    return o[i]
            raise IndexError('index out of range')
        if isinstance(k, slice) and has_sym(k):
            k = slice(*[self.concretize(x) for x in (k.start, k.stop, k.step)])
        if isinstance(o, collections.defaultdict) and k not in o:
            if o.default_factory is None:
                raise KeyError(k)
            v = self.call(o.default_factory, (), {})
            self.log_write(o, ('item', k))
            o[k] = v
            return v
        return o[k]

    def setitem(self, o, k, v):
        if isinstance(o, Sym):
            if hasattr(o, 'sym_setitem'):
                return o.sym_setitem(self, k, v)
            raise Unsupported('item assignment on %r' % o)
        d = self.dunder(o, '__setitem__')
        if d is not None:
            self.call(d, (o, k, v), {})
            return
        self.log_write(o, ('item', k))
        if id(o) in self.side:
            return self.side_setitem(o, k, v)
        if isinstance(o, list) and isinstance(k, SInt):
            k = self.concretize(k)
        if isinstance(o, list) and isinstance(k, slice) and isinstance(v, SGen):
            v = list(v)
        o[k] = v

    def delitem(self, o, k):
        self.log_write(o, ('item', k))
        if id(o) in self.side:
            raise Unsupported('del on a symbolic collection')
        del o[k]

    # ------------------------------------------------------------ iteration
    def iterate(self, v):
        """Iterator over a collection of concrete structure."""
        it = self.get_iter(v)
        if isinstance(it, SideIter):
            raise Unsupported('iteration over a symbolic collection outside a loop')
        return it

    def get_iter(self, v):
        if isinstance(v, (SGen, SideIter, MapIter)):
            return v
        if isinstance(v, SideView):
            return v.iterator()
        if isinstance(v, Sym):
            h = getattr(v, 'sym_iter', None)
            if h:
                return h(self)
            if isinstance(v, (SNum, SBool, SFunc)) or isinstance(v, Opaque) and v.attrs.get('closed'):
                raise TypeError('%s object is not iterable' % v.pytype.__name__)
            raise Unsupported('iteration over %r' % v)
        if id(v) in self.side:
            return self.side_iter(v)
        d = self.dunder(v, '__iter__')
        if d is not None:
            return self.call(d, (v,), {})
        return iter(v)

    def iter_next(self, it, frame, pc):
        if isinstance(it, SideIter):
            return it.step(frame, pc)
        d = self.dunder(it, '__next__') if not isinstance(it, (SGen, MapIter)) else None
        if d is not None:
            return self.call(d, (it,), {})
        return next(it)

    def unpack(self, v, n):
        if isinstance(v, Sym) and hasattr(v, 'sym_iter'):
            xs = list(v.sym_iter(self))
        else:
            it = self.get_iter(v)
            if isinstance(it, SideIter):
                xs = it.unpack(n)
            else:
                xs = []
                while True:
                    try:
                        xs.append(self.iter_next(it, None, None))
                    except StopIteration:
                        break
                    if len(xs) > n:
                        break
        if len(xs) > n:
            raise ValueError('too many values to unpack (expected %d)' % n)
        if len(xs) < n:
            raise ValueError('not enough values to unpack (expected %d, got %d)' % (n, len(xs)))
        return xs

    def list_append(self, l, v):
        if id(l) in self.side:
            return self.side_getattr(l, "append").invoke((v,), {})
        self.log_write(l, ('method', 'append'))
        l.append(v)

    def list_extend(self, l, it):
        if id(l) in self.side or id(it) in self.side or isinstance(it, (SideView, SideIter)):
            return self.side_getattr(l, "extend").invoke((it,), {})
        self.log_write(l, ('method', 'extend'))
        it = self.get_iter(it)
        while True:
            try:
                l.append(self.iter_next(it, None, None))
            except StopIteration:
                return

    def set_add(self, s, v):
        self.log_write(s, ('method', 'add'))
        if id(s) in self.side:
            raise Unsupported('add to a symbolic set')
        s.add(v)

    def mkset(self, xs):
        return set(xs)

    def dict_update(self, d, m):
        if id(m) in self.side or id(d) in self.side:
            return self.side_update(d, m)
        self.log_write(d, ('method', 'update'))
        if isinstance(m, dict):
            d.update(m)
            return
        for x in self.iterate(m):
            k, v = self.iterate(x)
            self.setitem(d, k, v)

    # side collections: see coll.py
    views = None

    def side_truth(self, v):
        raise Unsupported('symbolic collection')
    side_contains = side_getitem = side_setitem = side_iter = side_setattr = side_truth

    def side_update(self, d, m):
        raise Unsupported('update of a symbolic dict')

    def while_head(self, frame, n):
        pass

    def while_back(self, frame, tgt):
        k = (id(frame), tgt)
        self.loops[k] = self.loops.get(k, 0) + 1
        if self.loops[k] > 64:
            raise Unsupported('loop without a bound in %s' % frame.code.co_name)


class SideMeth(object):
    """Bound method of a symbolic collection."""
    def __init__(self, E, o, name):
        self.E, self.o, self.name = E, o, name

    def invoke(self, args, kwargs):
        raise Unsupported('method %s of a symbolic collection' % self.name)

    def __call__(self, *a, **k):
        return self.invoke(a, k)


class SideView(object):
    pass


class SideIter(object):
    pass


def is_array(x):
    t = type(x)
    return t.__module__ == 'numpy' or hasattr(x, '__array_interface__')


NATIVE_OK = set()
