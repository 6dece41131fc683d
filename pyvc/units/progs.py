# -*- coding: utf-8 -*-
"""Client programs executed by the verifier (what a user writes)."""
import math


def iadd(x, y):
    x += y
    return x


def isub(x, y):
    x -= y
    return x


def imul(x, y):
    x *= y
    return x


def itruediv(x, y):
    x /= y
    return x


def ifloordiv(x, y):
    x //= y
    return x


def imod(x, y):
    x %= y
    return x


def ipow(x, y):
    x **= y
    return x


def neg(x): return -x
def pos(x): return +x
def absolute(x): return abs(x)
def trunc(x): return math.trunc(x)


def error_components(x): return x.error_components()
def get_std_dev(x): return x.std_dev
def get_s(x): return x.s
def get_n(x): return x.n
def get_nominal_value(x): return x.nominal_value
def get_derivatives(x): return x.derivatives
def std_score(x, v): return x.std_score(v)


def set_std_dev(x, s):
    x.std_dev = s


def lt(x, y): return x < y
def le(x, y): return x <= y
def gt(x, y): return x > y
def ge(x, y): return x >= y
def eq(x, y): return x == y
def ne(x, y): return x != y
def to_bool(x): return bool(x)
def test(x): return True if x else False
def diff_parts(x, y):
    d = x - y
    return d.nominal_value, d.std_dev


# computations in which a variable enters along several paths
def c_sub_self(x, y): return x - x
def c_cancel(x, y): return 2 * x - x - x
def c_square(x, y): return x * x
def c_ratio(x, y): return x / x
def c_diff_squares(x, y): return (x + y) * (x - y)
def c_nested(x, y): return ((x + y) - x) - y
def c_shared(x, y):
    a = x + y
    b = a * a
    return a - b + a
def c_chain(x, y):
    z = x
    z = z + y
    z = z - x
    z = 3. * z
    z = -z
    return z
def c_abs(x, y): return abs(x * y) + x
def c_pow(x, y): return x**2 - y**3
def c_quot(x, y): return (x - y) / (1 + x * x)
def c_derivs_first(x, y):
    a = x + y
    a.derivatives
    b = a * x
    b.derivatives
    return b - a
def c_reads_between(x, y):
    a = x * y
    a.error_components()
    b = a + a
    a.derivatives
    return b * a


def get_derivatives_twice(x):
    x.derivatives
    return x.derivatives
def expand(lc): return lc.expand()
def derivative_of_foreign(x, v): return x.derivatives[v]


import copy as _copy
import uncertainties as _un


def do_format(x, spec): return format(x, spec)
def do_str(x): return str(x)
def do_repr(x): return repr(x)
def do_hash(x): return hash(x)
def do_copy(x): return _copy.copy(x)
def do_deepcopy(x): return _copy.deepcopy(x)
def do_getstate(x): return x.__getstate__()
def do_reduce(x): return x.__reduce_ex__(2)
def do_cov(x, y): return _un.covariance_matrix([x, y])
def do_cov1(x): return _un.covariance_matrix([x])
def helpers(x): return _un.nominal_value(x), _un.std_dev(x)
def lookup(x, v):
    d = x.derivatives
    before = v in d
    try:
        d[v]
    except KeyError:
        found = False
    else:
        found = True
    return before, found, v in x.derivatives, v in x.error_components()
def in_list(x, y): return x in [y]
def in_set(x, y): return {x: 1}, y


def square_root(x): return x**0.5
def subscript(x, i): return x[i]


# creation and attributes of variables
def new_pos(v, s, tag): return _un.ufloat(v, s)
def new_postag(v, s, tag): return _un.ufloat(v, s, tag)
def new_kw(v, s, tag): return _un.ufloat(nominal_value=v, std_dev=s, tag=tag)
def new_kwtag(v, s, tag): return _un.ufloat(v, std_dev=s, tag=tag)
def new_cls(v, s, tag): return _un.core.Variable(v, s, tag)
def new_clskw(v, s, tag): return _un.core.Variable(v, s, tag=tag)
def old_tuple(v, s, tag): return _un.ufloat((v, s))
def old_tuple_tag(v, s, tag): return _un.ufloat((v, s), tag)
def old_tuple_kw(v, s, tag): return _un.ufloat((v, s), tag=tag)
def old_str(t, tag): return _un.ufloat(t)
def old_str_tag(t, tag): return _un.ufloat(t, tag)
def old_str_kw(t, tag): return _un.ufloat(t, tag=tag)
def from_str(t, tag): return _un.ufloat_fromstr(t)
def from_str_tag(t, tag): return _un.ufloat_fromstr(t, tag)
def from_str_kw(t, tag): return _un.ufloat_fromstr(t, tag=tag)


def setattr_std_dev(x, s):
    setattr(x, 'std_dev', s)


def old_set_std_dev(x, s):
    x.set_std_dev(s)


def set_nominal(x, v):
    x.nominal_value = v


def set_n(x, v):
    x.n = v


def set_s(x, v):
    x.s = v


def set_tag(x, v):
    x.tag = v


def to_int(x): return int(x)
def to_float(x): return float(x)
def to_complex(x): return complex(x)
def call_std(x): return x.std_dev()


# user-defined subclasses (their methods are those of the library)
class SubDict(_un.core.Variable):
    pass


class SubSlots(_un.core.Variable):
    __slots__ = ('extra', 'other')


class SubStr(_un.core.Variable):
    __slots__ = 'extra'


class SubBoth(SubSlots):
    __slots__ = ('third', '__dict__')


class SubPrivate(_un.core.Variable):
    __slots__ = ['extra']


class AffSlots(_un.core.AffineScalarFunc):
    __slots__ = ('extra', 'other')


class AffDict(_un.core.AffineScalarFunc):
    pass


def str_ignoring_spec(x, spec): return str(x)
def format_method(x, spec): return x.format(spec)


def add(x, y): return x + y
def sub(x, y): return x - y
def mul(x, y): return x * y
def truediv(x, y): return x / y
