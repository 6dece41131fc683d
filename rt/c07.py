# -*- coding: utf-8 -*-
"""C07: calls without uncertain arguments."""
import decimal, fractions
from .base import *
from . import nums
import numpy
import uncertainties
from uncertainties import umath, wrap, UFloat


class HasFloat(object):
    def __float__(self):
        return 2.5

    def __index__(self):
        return 3


OBJS = {'str': '1.5', 'none': None, 'list': [1, 2], 'tuple': (1.5, 2.), 'np': numpy.float64(.25), 'np32': numpy.float32(.25),
        'npi': numpy.int64(3), 'arr': numpy.array([.5, .25]), 'arr0': numpy.array(.5), 'frac': fractions.Fraction(1, 3),
        'dec': decimal.Decimal('.5'), 'cplx': 1 + 2j, 'hasfloat': HasFloat(), 'obj': object(), 'true': True, 'big': 10 ** 400,
        'dict': {'a': 1}}


def obj(o):
    return OBJS[o[1]] if isinstance(o, tuple) and o[0] == 'o' else o


def outcome(f, a, k=None):
    try:
        return 'value', f(*a, **(k or {}))
    except Exception as e:
        return 'exception', e


def eqv(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(eqv(p, q) for p, q in zip(a, b))
    if isinstance(a, numpy.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and bool(numpy.all((a == b) | (a != a)))
    try:
        return bool(a is b or a == b or (a != a and b != b)) and (
            not isinstance(a, float) or a != a or math.copysign(1, a) == math.copysign(1, b))
    except ValueError:
        return a is b


def compare(g, e, what):
    if g[0] != e[0]:
        return '%s: %s %r instead of %s %r' % (what, g[0], g[1], e[0], e[1])
    if g[0] == 'exception':
        if type(g[1]) is not type(e[1]) and not isinstance(g[1], type(e[1])):
            return '%s: exception %r instead of %r' % (what, g[1], e[1])
        return None
    if not eqv(g[1], e[1]):
        return '%s: %r (%s) instead of %r (%s)' % (what, g[1], type(g[1]).__name__, e[1], type(e[1]).__name__)


MARK = object()


def f_any(*a, **k):
    return (a, tuple(sorted(k.items())))


def f_id(x, y=None):
    return x


def f_raise(x):
    raise KeyError(x)


def f_num(x, y=2):
    return x * y


def f_none(*a):
    return None


FS = {'any': f_any, 'id': f_id, 'raise': f_raise, 'num': f_num, 'none': f_none, 'hypot': math.hypot, 'log': math.log,
      'len': len, 'max': max, 'str': str.upper, 'sum': sum, 'fpow': float.__pow__, 'isinf': math.isinf}
WRAPPED = {n: wrap(f) for n, f in FS.items()}
WRAPPED2 = {n: wrap(f, [lambda *a, **k: 1 / 0.] * 2) for n, f in FS.items()}
FNAMES = sorted(umath.__all__)


def check(case):
    kind = case[0]
    if kind == 'umath':
        name, args = case[1], [obj(a) for a in case[2]]
        return compare(outcome(getattr(umath, name), args), outcome(getattr(math, name), args), 'umath.%s' % name)
    if kind == 'fsumit':
        vals = [obj(a) for a in case[1]]
        return compare(outcome(umath.fsum, [iter(vals)]), outcome(math.fsum, [iter(vals)]), 'fsum')
    if kind == 'wrap':
        name, args, kw, which = case[1], [obj(a) for a in case[2]], {n: obj(v) for n, v in case[3].items()}, case[4]
        w = (WRAPPED2 if which else WRAPPED)[name]
        keep = dict(kw)
        g = outcome(w, args, kw)
        e = compare(g, outcome(FS[name], args, kw), 'wrap(%s)' % name)
        if e:
            return e
        if name == 'id' and g[0] == 'value' and args and g[1] is not args[0]:
            return 'wrapped function did not receive the very argument'
        if keep != kw if not any(isinstance(v, numpy.ndarray) for v in kw.values()) else False:
            return 'keyword arguments modified'
        return None
    if kind == 'helpers':
        v = obj(case[1])
        if uncertainties.nominal_value(v) is not v:
            return 'nominal_value(%r) = %r' % (v, uncertainties.nominal_value(v))
        s = uncertainties.std_dev(v)
        if type(s) is not float or s != 0:
            return 'std_dev(%r) = %r' % (v, s)


SPEC = [0, 1, -1, 2, 0., -0., 1., -1., .5, 2.5, -3.7, 1e300, 1e-300, nan, inf, -inf, 171, 100]
FIXED = []
for _n in FNAMES:
    for _v in SPEC + [('o', k) for k in OBJS]:
        FIXED.append(('umath', _n, [_v]))
        FIXED.append(('umath', _n, [_v, 2.]))
        FIXED.append(('umath', _n, [2., _v]))
        FIXED.append(('umath', _n, [_v, 3]))
    FIXED.append(('umath', _n, []))
    FIXED.append(('umath', _n, [1., 2., 3.]))
    FIXED.append(('umath', _n, [[1., 2., 3.5]]))
    FIXED.append(('umath', _n, [[]]))
for _v in SPEC + [('o', k) for k in OBJS]:
    FIXED.append(('helpers', _v))
    for _n in FS:
        FIXED.append(('wrap', _n, [_v], {}, 0))
        FIXED.append(('wrap', _n, [_v, 2.], {}, 1))
        FIXED.append(('wrap', _n, [_v], {'y': _v}, 1))
FIXED.append(('wrap', 'any', [], {'a': ('o', 'str'), 'b': 2}, 0))
FIXED = [c for c in FIXED if not (c[0] == 'umath' and c[1] == 'factorial' and 1e300 in c[2])]


def gen(r):
    def v():
        k = r.random()
        return ('o', r.choice(list(OBJS))) if k < .25 else (r.choice(SPEC) if k < .5 else (nums.fl(r, -20, 20) if k < .9 else r.randint(-40, 40)))
    k = r.random()
    if k < .6:
        return ('umath', r.choice(FNAMES), [v() for _ in range(r.choice([1, 1, 2, 2, 3]))])
    if k < .7:
        return ('fsumit', [v() for _ in range(r.randint(0, 4))])
    if k < .95:
        return ('wrap', r.choice(list(FS)), [v() for _ in range(r.randint(0, 3))], {n: v() for n in 'xyz' if r.random() < .2}, r.randint(0, 1))
    return ('helpers', v())
