# -*- coding: utf-8 -*-
"""Models (assumed contracts) of the built-in functions and of the math module."""
import builtins, collections, copy, copyreg, functools, inspect, itertools, math, numbers, operator, re, sys, types, warnings
import z3
from . import engine as EN
from .engine import (PathEnd, Unsupported, Sym, SFloat, SInt, SBool, SNum, SComplex, Opaque, SFunc, is_num,
                     finite_const, rv, R)
from .ops import Ops, MapIter, SideIter, SideView, SideMeth, repo_class, raw_lookup, is_interp, has_sym, _MISSING, \
    NATIVE_OK, is_array
from .interp import SGen
from . import fmtmod, parsing
from .strings import SStr, to_str, fmt_value, str_method, str_binop

MATH1 = {}
PI = math.pi


class Machine(Ops):
    """The complete engine."""

    def __init__(self, *a, **k):
        Ops.__init__(self, *a, **k)
        self.ncalls = 0
        self.models = dict(MODELS)
        self.objmodels = dict(OBJMODELS)
        self.faults = False

    def begin_path(self, prefix):
        Ops.begin_path(self, prefix)
        self.ncalls = 0
        self.faultmemo = {}
        self.nfaults = 0
        self.faults = False
        self.warned = []
        self.strlens = {}
        self.joins = {}
        self.float_of_str = self.str_hook = None
        self.scale = None

    str_method = str_method
    str_binop = str_binop

    # ---------------------------------------------------------- conversions
    def to_float(self, x, what='float'):
        if isinstance(x, SFloat):
            return SFloat(x.t)
        if isinstance(x, (SInt, SBool)):
            return SFloat(self.term(x))
        if isinstance(x, Sym):
            if isinstance(x, SStr):
                return x.to_float(self)
            h = getattr(x, 'sym_float', None)
            if h:
                return h(self)
            if isinstance(x, Opaque):
                if 'float' in x.attrs:
                    return x.attrs['float'](self)
                if x.attrs.get('closed'):
                    raise TypeError('float() argument must be a string or a real number')
            if isinstance(x, (SFunc, SComplex)):
                raise TypeError('float() argument must be a string or a real number')
            raise Unsupported('float(%r)' % x)
        d = self.dunder(x, '__float__')
        if d is not None:
            return self.call(d, (x,), {})
        if what != 'float' and isinstance(x, (str, bytes)):
            raise TypeError('must be real number, not str')
        return float(x)

    # ---------------------------------------------------------- float slots
    SLOT2 = {'__%s__' % n: (op, False) for n, op in [('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'),
             ('floordiv', '//'), ('mod', '%'), ('pow', '**')]}
    SLOT2.update({'__r%s__' % n[2:-2]: (op, True) for n, (op, _) in list(SLOT2.items())})

    def float_slot(self, oc, name, args, kwargs):
        if not args:
            raise TypeError('unbound method needs an argument')
        x, rest = args[0], args[1:]
        if not issubclass(self.type_of(x), oc):
            raise TypeError("descriptor '%s' requires a '%s' object but received '%s'" % (
                name, oc.__name__, self.type_of(x).__name__))
        if not any(isinstance(a, Sym) for a in args):
            return getattr(oc, name)(*args, **kwargs)
        if kwargs:
            raise TypeError('no keyword arguments')
        return self.sym_method(x, name, rest, kwargs)

    def sym_method(self, x, name, args, kwargs):
        if isinstance(x, Opaque):
            h = x.attrs.get('methods', {}).get(name)
            if h:
                return h(self, args, kwargs)
            raise Unsupported('method %s of %r' % (name, x))
        if isinstance(x, SStr):
            return self.str_method(x, name, args, kwargs)
        if isinstance(x, parsing.SMatch):
            return parsing.smatch_call(self, x, name, args, kwargs)
        if isinstance(x, float) and not isinstance(x, Sym):
            x_float = True
        c = getattr(x, 'cls', None)
        if c is not None:
            raw = raw_lookup(c, name)
            if is_interp(raw):
                return self.call(raw, (x,) + tuple(args), kwargs)
        if name in self.SLOT2 and (is_num(x)):
            op, refl = self.SLOT2[name]
            if len(args) != 1:
                if name in ('__pow__', '__rpow__') and len(args) == 2:
                    if args[1] is None:
                        args = args[:1]
                    else:
                        raise TypeError('pow() 3rd argument not allowed unless all arguments are integers')
                else:
                    raise TypeError('expected 1 argument, got %d' % len(args))
            y = args[0]
            if not is_num(y) or (self.is_int_like(x) and not self.is_int_like(y)):
                return NotImplemented
            return self.num_binop(op, y, x) if refl else self.num_binop(op, x, y)
        if name in ('__neg__', '__pos__', '__abs__', '__trunc__', '__bool__', '__float__', '__int__', '__floor__',
                    '__ceil__', 'is_integer', 'conjugate'):
            if args:
                raise TypeError('expected 0 arguments, got %d' % len(args))
            if name == '__neg__':
                return self.num_neg(x)
            if name in ('__pos__', '__float__', 'conjugate'):
                return SFloat(x.t) if isinstance(x, SFloat) else x
            if name == '__abs__':
                return self.num_abs(x)
            if name in ('__trunc__', '__int__'):
                return self.trunc(x)
            if name == '__floor__':
                return SInt(z3.ToInt(self.term(x)))
            if name == '__ceil__':
                return SInt(-z3.ToInt(-self.term(x)))
            if name == 'is_integer':
                return SBool(z3.IsInt(self.term(x)))
            return SBool(self.term(x) != 0)
        if name in ('__lt__', '__le__', '__gt__', '__ge__', '__eq__', '__ne__'):
            op = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}[name[2:-2]]
            if not is_num(args[0]):
                return NotImplemented
            return self.num_compare(op, x, args[0])
        if name == '__divmod__':
            return (self.num_binop('//', x, args[0]), self.num_binop('%', x, args[0]))
        if name == '__format__':
            return fmt_value(self, x, args[0])
        if name in ('__repr__', '__str__'):
            return to_str(self, x, name[2:-2])
        if name == '__round__':
            return m_round(self, (x,) + tuple(args), {})
        raise Unsupported('method %s of %r' % (name, x))

    def trunc(self, x):
        if self.is_int_like(x):
            return SInt(self.iterm(x))
        t = self.term(x)
        return SInt(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))

    # ---------------------------------------------------------- math module
    FAULTY = ('exp', 'expm1', 'exp2', 'sinh', 'cosh', 'gamma', 'lgamma', 'pow', 'hypot', '**')

    def fault(self, what, *ts):
        """A library call may fail because of overflow (only when the unit asks for it; a function of its arguments)."""
        if not self.faults or what not in self.FAULTY:
            return
        key = (what,) + tuple(z3.simplify(t) for t in ts)
        k = (what,) + tuple(t.get_id() for t in key[1:])
        if k not in self.faultmemo:
            self.faultmemo[k] = (self.choose(2, 'fault') == 1, key)
        if self.faultmemo[k][0]:
            self.nfaults += 1
            raise OverflowError('math range error (%s)' % what)

    def underflow(self, t):
        """A computed denominator may underflow to zero (only when the unit asks for it)."""
        if self.faults and z3.is_app(t) and t.num_args() and not z3.is_rational_value(z3.simplify(t)):
            k = ('/', z3.simplify(t).get_id())
            if k not in self.faultmemo:
                self.faultmemo[k] = (self.choose(2, 'underflow') == 1, t, z3.simplify(t))
            if self.faultmemo[k][0]:
                self.nfaults += 1
                raise ZeroDivisionError('float division by zero')

    def math_call(self, name, args, kwargs):
        f = getattr(math, name)
        if kwargs:
            if not any(isinstance(a, Sym) for a in list(args) + list(kwargs.values())):
                return f(*args, **kwargs)
            raise Unsupported('keyword arguments of math.' + name)
        if name in ('fsum',):
            it = self.iterate(args[0])
            tot = 0.
            for v in it:
                if not isinstance(v, Sym) and isinstance(v, float) and not finite_const(v):
                    raise Unsupported('fsum of non-finite numbers')
                tot = self.num_binop('+', tot, self.to_float(v, 'math'))
            return tot
        if not any(isinstance(a, Sym) or repo_class(type(a)) for a in args):
            return self.native(f, args, kwargs)
        if name in ('ceil', 'floor', 'trunc') and len(args) == 1:
            x = args[0]
            d = self.dunder(x, '__%s__' % name)
            if d is not None:
                return self.call(d, (x,), {})
            if isinstance(x, (SNum, SBool)):
                return self.sym_method(x, '__%s__' % name, (), {})
            if name == 'trunc':
                raise TypeError("type doesn't define __trunc__ method")
        if name == 'factorial' and len(args) == 1:
            x, = args
            if not isinstance(x, (SInt, SBool)):
                if isinstance(x, SFloat) or isinstance(x, Opaque) and x.attrs.get('closed'):
                    raise TypeError('factorial() only accepts integral values')
                raise Unsupported('math.factorial')
            if self.decide(self.iterm(x) < 0):
                raise ValueError('factorial() not defined for negative values')
            r = z3.ToInt(EN.uf('factorial', 1)(self.term(x)))
            self.fact(r >= 1)
            return SInt(r)
        if name == 'ldexp':
            return self.m_ldexp(*args)
        spec = MATHSPEC.get(name)
        if spec is None:
            raise Unsupported('math.' + name)
        lo, hi = spec[0]
        if not lo <= len(args) <= hi:
            raise TypeError('%s expected %d arguments, got %d' % (name, lo, len(args)))
        xs = [self.to_float(a, 'math') for a in args]
        if not any(isinstance(x, Sym) for x in xs):
            return f(*xs)
        for x in xs:
            if isinstance(x, float) and not finite_const(x):
                raise Unsupported('math.%s of infinite and symbolic arguments' % name)
        ts = [self.term(x) for x in xs]
        r = spec[1](self, *ts)
        self.fault(name, *ts)
        return r

    def m_ldexp(self, x, i):
        x = self.to_float(x, 'math')
        if not self.is_int_like(i):
            if isinstance(i, Sym) or repo_class(type(i)):
                raise TypeError('Expected an int as second argument to ldexp.')
            if not isinstance(x, Sym):
                return math.ldexp(x, i)   # native
            if hasattr(i, '__index__'):
                raise Unsupported('ldexp')
            raise TypeError('Expected an int as second argument to ldexp.')
        if isinstance(x, float) and not finite_const(x):
            return x
        t = self.term(x)
        p = self.pow2(self.iterm(i))
        if self.decide(t == 0):
            return SFloat(z3.RealVal(0))
        r = t * p
        big = rv(EN.Fr(2) ** 1024)
        if self.decide(z3.Or(r >= big, r <= -big)):
            raise OverflowError('math range error')
        return SFloat(r)

    def pow2(self, e):
        e = z3.simplify(e if e.sort() == R else z3.ToReal(e))
        if z3.is_rational_value(e) and e.denominator_as_long() == 1 and abs(e.numerator_as_long()) < 2000:
            return rv(EN.Fr(2) ** e.numerator_as_long())
        t = EN.uf('pow2', 1)(e)
        if self.once(t):
            big = EN.Fr(2) ** 1024
            self.fact(t > 0)
            self.fact(z3.Implies(e >= 1024, t >= rv(big)))
            self.fact(z3.Implies(e <= 1023, t <= rv(big / 2)))
            self.fact(z3.Implies(e >= 0, z3.And(t >= 1, z3.ToReal(z3.ToInt(t)) == t)))
            self.fact(z3.Implies(e == 0, t == 1))
            for (e2, t2) in list(self.ufterms.get('pow2', [])):
                d = z3.simplify(e + e2)
                if z3.is_rational_value(d) and d.denominator_as_long() == 1 and abs(d.numerator_as_long()) < 2000:
                    self.fact(t * t2 == rv(EN.Fr(2) ** d.numerator_as_long()))
            self.ufterms.setdefault('pow2', []).append((e, t))
        return t

    def float_pow(self, x, y, pyy=None):
        r = Ops.float_pow(self, x, y, pyy)
        self.fault('**', x, y)
        return r

    def num_binop(self, op, a, b):
        if self.scale is not None and is_num(a) and is_num(b):
            r = self.scale.binop(op, a, b)
            if r is not NotImplemented:
                return r
        if op == '**' and isinstance(a, int) and a == 2 and isinstance(b, SInt):
            p = self.pow2(b.t)
            if self.decide(b.t < 0):
                return SFloat(p)
            return SInt(z3.ToInt(p))
        if op == '/' and self.faults and isinstance(b, SFloat):
            self.underflow(b.t)
        return Ops.num_binop(self, op, a, b)


def _one(name, dom=None, err=ValueError):
    def f(E, x):
        if dom is not None and not E.decide(dom(x)):
            raise err('math domain error')
        return SFloat(E.fn(name, x))
    return ((1, 1), f)


def _log(E, x, b=None):
    if not E.decide(x > 0):
        raise ValueError('math domain error')
    if b is None:
        return SFloat(E.fn('log', x))
    if not E.decide(b > 0):
        raise ValueError('math domain error')
    lb = E.fn('log', b)
    if E.decide(b == 1):
        raise ZeroDivisionError('float division by zero')
    E.fact(lb != 0)
    return SFloat(E.fn('log', x) / lb)


def _pow(E, x, y):
    if E.decide(y == 0):
        return SFloat(z3.RealVal(1))
    if E.decide(x == 0):
        if E.decide(y < 0):
            raise ValueError('math domain error')
        return SFloat(z3.RealVal(0))
    if not E.decide(x > 0):
        if not E.decide(z3.IsInt(y)):
            raise ValueError('math domain error')
    ys = z3.simplify(y)
    if z3.is_rational_value(ys) and ys.denominator_as_long() == 1 and 0 <= ys.numerator_as_long() <= 8:
        r = z3.RealVal(1)
        for _ in range(ys.numerator_as_long()):
            r = r * x
        return SFloat(r)
    return SFloat(E.rpow(x, y))


def _copysign(E, x, y):
    # the sign of a zero is not represented: y == 0 counts as +0
    a = z3.If(x >= 0, x, -x)
    return SFloat(z3.If(y >= 0, a, -a))


def _hypot(E, *xs):
    s = z3.simplify(sum((x * x for x in xs[1:]), xs[0] * xs[0]))
    t = E.fn('sqrt', s)
    E.fact(z3.And(s >= 0, t >= 0, t * t == s))
    return SFloat(t)


def _fmod(E, x, y):
    if E.decide(y == 0):
        raise ValueError('math domain error')
    q = x / y
    n = z3.If(q >= 0, z3.ToReal(z3.ToInt(q)), -z3.ToReal(z3.ToInt(-q)))
    return SFloat(x - y * n)


def _modf(E, x):
    n = z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))
    return (SFloat(x - n), SFloat(n))


def _frexp(E, x):
    if E.decide(x == 0):
        return (SFloat(z3.RealVal(0)), 0)
    e = z3.ToInt(EN.uf('frexp_e', 1)(x))
    p = E.pow2(-e)
    m = x * p
    a = z3.If(m >= 0, m, -m)
    E.fact(z3.And(a >= rv(0.5), a < 1))
    return (SFloat(m), SInt(e))


def _gamma(name):
    def f(E, x):
        if E.decide(z3.And(z3.IsInt(x), x <= 0)):
            raise ValueError('math domain error')
        return SFloat(E.fn(name, x))
    return ((1, 1), f)


def _floorf(E, x):
    return SInt(z3.ToInt(x))


MATHSPEC = {
    'sqrt': _one('sqrt', lambda x: x >= 0), 'sin': _one('sin'), 'cos': _one('cos'), 'tan': _one('tan'),
    'asin': _one('asin', lambda x: z3.And(x >= -1, x <= 1)), 'acos': _one('acos', lambda x: z3.And(x >= -1, x <= 1)),
    'atan': _one('atan'), 'sinh': _one('sinh'), 'cosh': _one('cosh'), 'tanh': _one('tanh'), 'asinh': _one('asinh'),
    'acosh': _one('acosh', lambda x: x >= 1), 'atanh': _one('atanh', lambda x: z3.And(x > -1, x < 1)),
    'exp': _one('exp'), 'expm1': ((1, 1), lambda E, x: SFloat(E.fn('exp', x) - 1)), 'exp2': _one('exp2'), 'cbrt': _one('cbrt'),
    'log': ((1, 2), _log), 'log10': _one('log10', lambda x: x > 0), 'log2': _one('log2', lambda x: x > 0),
    'log1p': ((1, 1), lambda E, x: _log(E, x + 1)),
    'erf': _one('erf'), 'erfc': ((1, 1), lambda E, x: SFloat(1 - E.fn('erf', x))), 'gamma': _gamma('gamma'), 'lgamma': _gamma('lgamma'),
    'fabs': ((1, 1), lambda E, x: SFloat(z3.If(x >= 0, x, -x))),
    'degrees': ((1, 1), lambda E, x: SFloat(x * rv(180. / PI))), 'radians': ((1, 1), lambda E, x: SFloat(x * rv(PI / 180.))),
    'pow': ((2, 2), _pow), 'atan2': ((2, 2), lambda E, y, x: SFloat(E.fn('atan2', y, x))),
    'hypot': ((0, 9), _hypot), 'copysign': ((2, 2), _copysign), 'fmod': ((2, 2), _fmod),
    'modf': ((1, 1), _modf), 'frexp': ((1, 1), _frexp),
    'isnan': ((1, 1), lambda E, x: False), 'isinf': ((1, 1), lambda E, x: False), 'isfinite': ((1, 1), lambda E, x: True),
    'floor': ((1, 1), _floorf), 'ceil': ((1, 1), lambda E, x: SInt(-z3.ToInt(-x))),
}


# ---------------------------------------------------------------- built-in functions

MODELS = {}
OBJMODELS = {}


def model(*fs):
    def dec(h):
        for f in fs:
            MODELS[f] = h
        return h
    return dec


for _n in dir(math):
    _f = getattr(math, _n)
    if isinstance(_f, types.BuiltinFunctionType):
        MODELS[_f] = (lambda n: lambda E, a, k: E.math_call(n, a, k))(_n)


@model(isinstance)
def m_isinstance(E, args, kw):
    o, c = args
    if isinstance(o, Sym):
        return m_issubclass(E, (o.pytype, c), {})
    if repo_class(type(o)) and not isinstance(c, tuple) and not isinstance(c, type):
        raise TypeError('isinstance() arg 2 must be a type')
    return isinstance(o, c)


@model(issubclass)
def m_issubclass(E, args, kw):
    return issubclass(*args)


@model(type)
def m_type(E, args, kw):
    if len(args) == 1:
        return E.type_of(args[0])
    return E.native(type, args, kw)


@model(len)
def m_len(E, args, kw):
    o, = args
    if isinstance(o, Sym):
        h = getattr(o, 'sym_len', None)
        if h:
            return h(E)
        if isinstance(o, (SNum, SBool, SFunc)) or isinstance(o, Opaque) and o.attrs.get('closed'):
            raise TypeError('object of type %s has no len()' % o.pytype.__name__)
        raise Unsupported('len(%r)' % o)
    d = E.dunder(o, '__len__')
    if d is not None:
        return E.call(d, (o,), {})
    if id(o) in E.side:
        return E.side_len(o)
    return len(o)


@model(abs)
def m_abs(E, args, kw):
    x, = args
    if isinstance(x, (SNum, SBool)):
        return E.num_abs(x)
    d = E.dunder(x, '__abs__')
    if d is not None:
        return E.call(d, (x,), {})
    if isinstance(x, Sym):
        raise TypeError('bad operand type for abs()')
    return abs(x)


@model(float)
def m_float(E, args, kw):
    if not args:
        return 0.
    return E.to_float(*args)


@model(int)
def m_int(E, args, kw):
    if not args:
        return 0
    x = args[0]
    if isinstance(x, SStr):
        return x.to_int(E)
    if isinstance(x, (SNum, SBool)):
        return E.trunc(x)
    for n in ('__int__', '__index__', '__trunc__'):
        d = E.dunder(x, n)
        if d is not None:
            return E.call(d, (x,), {})
    if isinstance(x, Sym):
        if isinstance(x, (SFunc, SComplex)) or isinstance(x, Opaque) and x.attrs.get('closed'):
            raise TypeError('int() argument must be a string or a real number')
        raise Unsupported('int(%r)' % x)
    return int(*args, **kw)


@model(bool)
def m_bool(E, args, kw):
    if not args:
        return False
    x = args[0]
    if isinstance(x, SBool):
        return x
    if isinstance(x, SNum):
        return SBool(E.term(x) != 0)
    return E.truth_of(x)


@model(complex)
def m_complex(E, args, kw):
    if args and not isinstance(args[0], Sym):
        d = E.dunder(args[0], '__complex__')
        if d is not None:
            return E.call(d, (args[0],), {})
    return E.native(complex, args, kw)


@model(str, repr, format)
def _str(E, args, kw):
    raise AssertionError


MODELS[str] = lambda E, a, k: to_str(E, a[0], 'str') if a else ''
MODELS[repr] = lambda E, a, k: to_str(E, a[0], 'repr')
MODELS[format] = lambda E, a, k: fmt_value(E, a[0], a[1] if len(a) > 1 else '')


@model(hasattr)
def m_hasattr(E, args, kw):
    try:
        E.getattr(*args)
        return True
    except AttributeError:
        return False


@model(getattr)
def m_getattr(E, args, kw):
    try:
        return E.getattr(args[0], args[1])
    except AttributeError:
        if len(args) == 3:
            return args[2]
        raise


@model(setattr, object.__setattr__)
def m_setattr(E, args, kw):
    E.setattr(*args)


@model(callable)
def m_callable(E, args, kw):
    x, = args
    if isinstance(x, Sym):
        return hasattr(x.pytype, '__call__')
    return callable(x)


@model(id)
def m_id(E, args, kw):
    return id(args[0])


@model(hash)
def m_hash(E, args, kw):
    d = E.dunder(args[0], '__hash__')
    if d is not None:
        return E.call(d, args, kw)
    return hash(args[0])


@model(map)
def m_map(E, args, kw):
    f = args[0]
    if isinstance(f, (types.BuiltinFunctionType, type)) and f not in E.models and not any(id(a) in E.side or isinstance(a, SideView) for a in args[1:]):
        return map(f, *[E.iterate(a) for a in args[1:]])
    return MapIter(E, f, args[1:])


@model(filter)
def m_filter(E, args, kw):
    f, it = args

    def gen():
        for x in E.iterate(it):
            if E.truth_of(x if f is None else E.call(f, (x,), {})):
                yield x
    return gen()


@model(sum)
def m_sum(E, args, kw):
    acc = args[1] if len(args) > 1 else kw.get('start', 0)
    return E.sum_of(args[0], acc)


def _minmax(name):
    def h(E, args, kw):
        key = kw.get('key')
        xs = list(E.iterate(args[0])) if len(args) == 1 else list(args)
        if not xs:
            if 'default' in kw:
                return kw['default']
            raise ValueError('%s() arg is an empty sequence' % name)
        ks = [x if key is None else E.call(key, (x,), {}) for x in xs]
        b = 0
        for i in range(1, len(xs)):
            if E.truth_of(E.compare('<' if name == 'min' else '>', ks[i], ks[b])):
                b = i
        return xs[b]
    return h


MODELS[min] = _minmax('min')
MODELS[max] = _minmax('max')


@model(sorted)
def m_sorted(E, args, kw):
    xs = list(E.iterate(args[0]))
    if any(isinstance(x, Sym) for x in xs) or 'key' in kw:
        raise Unsupported('sorted()')
    return sorted(xs, **kw)


@model(any)
def m_any(E, args, kw):
    for x in E.iterate(args[0]):
        if E.truth_of(x):
            return True
    return False


@model(all)
def m_all(E, args, kw):
    for x in E.iterate(args[0]):
        if not E.truth_of(x):
            return False
    return True


@model(zip)
def m_zip(E, args, kw):
    if any(id(a) in E.side or isinstance(a, (SideView, SideIter)) for a in args):
        return E.side_zip(args)
    its = [E.get_iter(a) for a in args]

    def gen():
        if not its:
            return
        while True:
            vs = []
            for it in its:
                try:
                    vs.append(E.iter_next(it, None, None))
                except StopIteration:
                    return
            yield tuple(vs)
    return gen()


@model(enumerate)
def m_enumerate(E, args, kw):
    if id(args[0]) in E.side or isinstance(args[0], SideView):
        return E.side_enumerate(args, kw)
    return enumerate(E.iterate(args[0]), *args[1:], **kw)


@model(reversed)
def m_reversed(E, args, kw):
    if id(args[0]) in E.side:
        return E.side_reversed(args[0])
    return reversed(args[0])


@model(iter)
def m_iter(E, args, kw):
    if len(args) == 1:
        return E.get_iter(args[0])
    return E.native(iter, args, kw)


@model(next)
def m_next(E, args, kw):
    try:
        return E.iter_next(args[0], None, None)
    except StopIteration:
        if len(args) > 1:
            return args[1]
        raise


@model(divmod)
def m_divmod(E, args, kw):
    return (E.binop('//', *args), E.binop('%', *args))


@model(pow, operator.pow)
def m_pow(E, args, kw):
    if len(args) != 2:
        return E.native(pow, args, kw)
    return E.binop('**', *args)


for _n, _op in [('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('floordiv', '//'), ('mod', '%')]:
    MODELS[getattr(operator, _n)] = (lambda op: lambda E, a, k: E.binop(op, *a))(_op)
for _n, _op in [('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>='), ('eq', '=='), ('ne', '!=')]:
    MODELS[getattr(operator, _n)] = (lambda op: lambda E, a, k: E.compare(op, *a))(_op)
MODELS[operator.neg] = lambda E, a, k: E.unary('-', *a)
MODELS[operator.pos] = lambda E, a, k: E.unary('+', *a)
MODELS[operator.abs] = m_abs
MODELS[operator.not_] = lambda E, a, k: E.not_(*a)
MODELS[operator.truth] = m_bool


@model(round)
def m_round(E, args, kw):
    x = args[0]
    n = args[1] if len(args) > 1 else kw.get('ndigits')
    if not isinstance(x, Sym) and not isinstance(n, Sym):
        d = E.dunder(x, '__round__')
        if d is not None:
            return E.call(d, tuple(args), kw)
        return round(x, n) if n is not None else round(x)
    if isinstance(x, float) and not isinstance(x, Sym):
        if not finite_const(x):
            if n is None:
                return round(x)
            return x
    if not is_num(x):
        raise Unsupported('round(%r)' % x)
    if E.scale is not None and not E.is_int_like(x):
        return E.scale.round(x, n)
    t = E.term(x)
    if n is None:
        return SInt(E.round_half_even(t))
    if E.is_int_like(x):
        raise Unsupported('round(int, n)')
    p = E.pow10(E.iterm(n))
    r = E.round_half_even(t * p)
    v = z3.ToReal(r) * E.pow10(-E.iterm(n))
    return SFloat(v)


def round_half_even(E, t):
    t = z3.simplify(t)
    k = ('round', t.get_id())
    if k in E.seen_terms:
        return E.seen_terms[k][1]
    r = E.fresh('round', z3.IntSort())
    E.seen_terms[k] = (t, r)
    d = t - z3.ToReal(r)
    h = rv(0.5)
    E.fact(z3.And(d <= h, d >= -h, z3.Implies(z3.Or(d == h, d == -h), r % 2 == 0)))
    return r


Machine.round_half_even = round_half_even


def sum_of(E, it, acc):
    from . import coll
    it = E.get_iter(it)
    r = coll.sum_hook(E, it, acc)
    if r is not None:
        return r[0]
    while True:
        try:
            v = E.iter_next(it, None, None)
        except StopIteration:
            return acc
        acc = E.binop('+', acc, v)


Machine.sum_of = sum_of


@model(warnings.warn)
def m_warn(E, args, kw):
    E.warned.append(args[0] if args else None)


@model(print)
def m_print(E, args, kw):
    return None


@model(vars)
def m_vars(E, args, kw):
    return vars(*args)


@model(set, frozenset)
def m_set(E, args, kw):
    return E.build_container(set, args, kw)


@model(functools.reduce)
def m_reduce(E, args, kw):
    it = E.iterate(args[1])
    acc = args[2] if len(args) > 2 else next(it)
    for x in it:
        acc = E.call(args[0], (acc, x), {})
    return acc


# inspection of callables
def m_getfullargspec(E, args, kw):
    f, = args
    if isinstance(f, Sym):
        a = getattr(f, 'attrs', {}).get('argspec')
        if a is None:
            raise TypeError('unsupported callable')
        return a
    if isinstance(f, types.MethodType) and isinstance(f.__func__, SFunc):
        a = f.__func__.attrs.get('argspec')
        if a is None:
            raise TypeError('unsupported callable')
        return a
    return inspect.getfullargspec(f)


MODELS[inspect.getfullargspec] = m_getfullargspec
MODELS[inspect.ismethod] = lambda E, a, k: isinstance(a[0], types.MethodType) or (
    isinstance(a[0], SFunc) and bool(a[0].attrs.get('ismethod')))
MODELS[itertools.chain] = lambda E, a, k: (E.iter_chain(a))
MODELS[itertools.repeat] = lambda E, a, k: itertools.repeat(*[x if i == 0 else E.concretize(x) for i, x in enumerate(a)], **k)
MODELS[copyreg.__newobj__] = lambda E, a, k: E.call(raw_new(a[0]), a, k)


def raw_new(cls):
    return cls.__new__


def iter_chain(E, its):
    def gen():
        for x in its:
            it = E.iterate(x)
            while True:
                try:
                    v = E.iter_next(it, None, None)
                except StopIteration:
                    break
                yield v
    return gen()


Machine.iter_chain = iter_chain
NATIVE_OK.update([types.MethodType, id, tuple, list])


def reduce_ex(E, args, kw):
    """object.__reduce_ex__(protocol >= 2) of an object of the code under test."""
    o = args[0]
    if not repo_class(type(o)):
        return E.native(object.__reduce_ex__, args, kw)
    cls = type(o)
    r = raw_lookup(cls, '__reduce__')
    if is_interp(r):
        return E.call(r, (o,), {})
    proto = args[1] if len(args) > 1 else 0
    na = raw_lookup(cls, '__getnewargs__')
    if na is not _MISSING or raw_lookup(cls, '__getnewargs_ex__') is not _MISSING:
        raise Unsupported('__getnewargs__')
    gs = raw_lookup(cls, '__getstate__')
    if is_interp(gs):
        state = E.call(gs, (o,), {})
    else:
        # object.__getstate__
        slots = {}
        for n in copyreg._slotnames(cls):
            try:
                slots[n] = E.getattr(o, n)
            except AttributeError:
                pass
        if copyreg._slotnames(cls) and proto < 2:
            raise TypeError('cannot pickle %s object' % cls.__name__)
        state = dict(o.__dict__) if getattr(o, '__dict__', None) else None
        if slots:
            state = (state, slots)
    if proto < 2:
        base = next(b for b in cls.__mro__ if not b.__flags__ & (1 << 9))
        if base is not object:
            raise Unsupported('pickling of a subclass of %s' % base.__name__)
        r = (copyreg._reconstructor, (cls, object, None))
        return r + (state,) if E.truth_of(state) else r
    return (copyreg.__newobj__, (cls,), state, None, None)


MODELS[object.__reduce_ex__] = reduce_ex


def reconstructor(E, args, kw):
    cls, base, state = args
    if base is not object:
        raise Unsupported('_reconstructor')
    return E.born(object.__new__(cls))


MODELS[copyreg._reconstructor] = reconstructor


def re_model(fn):
    def m(E, args, kw):
        if any(isinstance(a, Sym) for a in list(args) + list(kw.values())):
            if any(isinstance(a, Sym) and not isinstance(a, SStr) for a in list(args) + list(kw.values())):
                raise Unsupported('re.%s' % fn.__name__)
            if isinstance(args[0], re.Pattern):
                return parsing.pattern_method(E, args[0], fn.__name__, args[1:], kw)
            return parsing.native(E, fn, *args, **kw)
        return fn(*args, **kw)
    MODELS[fn] = m


for _f in (re.match, re.search, re.fullmatch, re.split, re.findall, re.sub):
    re_model(_f)
