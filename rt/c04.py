# -*- coding: utf-8 -*-
"""C04: umath functions, nominal values and derivatives."""
from .base import *
from . import spec, nums
from .c03 import dcheck, attempt
from uncertainties import ufloat, UFloat, umath

EXC = (ValueError, ZeroDivisionError, OverflowError, TypeError)


def tryf(f):
    try:
        return f(), None
    except EXC as e:
        return None, e


def exc_differ(e1, e2):
    return (e1 is None) != (e2 is None) or e1 is not None and type(e1) is not type(e2)


def lin(res, variables):
    """Derivatives of a result with respect to the given variables, None if an unknown variable occurs."""
    if not isinstance(res, UFloat):
        return [0.] * len(variables)
    for v in res.derivatives:
        if not any(v is w for w in variables):
            return None
    return [res.derivatives.get(v, 0.) for v in variables]


def nomcheck(res, exp, want_u=True):
    n = res.nominal_value if isinstance(res, UFloat) else res
    if want_u and not isinstance(res, UFloat):
        return 'result without uncertainty: %r' % (res,)
    if not same(n, exp):
        return 'nominal value %r instead of %r' % (n, exp)


def moderate(vals, lo=1e-50, hi=1e50):
    return all(not math.isnan(v) and (v == 0 or lo < abs(v) < hi) for v in vals)


def check(case):
    name = case[0]
    if name == 'fsum':
        objs = [ufloat(*o[1:]) if o[0] == 'u' else o[1] for o in case[1]]
        exp, e2 = tryf(lambda: math.fsum([o[1] for o in case[1]]))
        how = case[2]
        res, e1 = tryf(lambda: umath.fsum(objs if how == 'list' else (tuple(objs) if how == 'tuple' else iter(objs))))
        if exc_differ(e1, e2):
            return 'exception %r instead of %r' % (e1, e2)
        if e1:
            return None
        us = [o for o in objs if isinstance(o, UFloat)]
        e = nomcheck(res, exp, bool(us))
        if e or not us:
            return e
        if lin(res, us) != [1.] * len(us):
            return 'fsum derivatives %r' % lin(res, us)
        return None
    if name in ('modf', 'frexp', 'ldexp'):
        v, s = case[1], case[2]
        x = ufloat(v, s)
        if name == 'ldexp':
            i = case[3]
            exp, e2 = tryf(lambda: math.ldexp(v, i))
            res, e1 = tryf(lambda: umath.ldexp(x, i))
            if exc_differ(e1, e2):
                return 'exception %r instead of %r' % (e1, e2)
            if e1:
                return None
            e = nomcheck(res, exp)
            if e:
                return e
            if abs(i) < 1000 and lin(res, [x]) != [2. ** i]:
                return 'ldexp derivative %r' % lin(res, [x])
            return None
        exp, e2 = tryf(lambda: getattr(math, name)(v))
        res, e1 = tryf(lambda: getattr(umath, name)(x))
        if exc_differ(e1, e2):
            return 'exception %r instead of %r' % (e1, e2)
        if e1:
            return None
        if not isinstance(res, tuple) or len(res) != 2:
            return 'not a pair: %r' % (res,)
        e = nomcheck(res[0], exp[0])
        if e:
            return e
        if isinstance(res[1], UFloat) or not same(res[1], exp[1]):
            return 'second part %r instead of %r' % (res[1], exp[1])
        d = 1. if name == 'modf' else 2. ** -exp[1]
        if lin(res[0], [x]) != [d]:
            return '%s derivative %r instead of %r' % (name, lin(res[0], [x]), d)
        if not close(res[0].std_dev, d * s):
            return '%s std_dev %r' % (name, res[0].std_dev)
        return None
    args = case[1]
    objs = [ufloat(*o[1:]) if o[0] == 'u' else o[1] for o in args]
    vals = [o[1] for o in args]
    exp, e2 = tryf(lambda: getattr(math, name)(*vals))
    res, e1 = tryf(lambda: getattr(umath, name)(*objs))
    if exc_differ(e1, e2):
        return 'exception %r instead of %r' % (e1, e2)
    if e1:
        return None
    us = [o for o in objs if isinstance(o, UFloat)]
    if name in spec.LOCALLY_CST:
        if isinstance(res, UFloat):
            return 'plain value expected: %r' % res
        if type(res) is not type(exp) or not same(res, exp):
            return 'value %r instead of %r' % (res, exp)
        return None
    e = nomcheck(res, exp, bool(us))
    if e or not us:
        return e
    ds = lin(res, us)
    if ds is None:
        return 'unknown variable in the result'
    fv = [float(v) for v in vals]
    if not all(map(math.isfinite, fv)) or not moderate(fv):
        return None
    if name in ('erf', 'erfc') and abs(fv[0]) > 20 or name in ('gamma', 'lgamma') and not -30 < fv[0] < 120:
        return None
    ps = spec.partials(name, fv)
    k = 0
    for o, d in zip(args, ps):
        if o[0] == 'u':
            e = dcheck('%s, argument %d' % (name, args.index(o)), ds[k], d, name, fv)
            k += 1
            if e and not (d is spec.UNDEF):
                return e


def domain(r, name):
    f = nums.fl
    if name in ('acos', 'asin', 'atanh'):
        return r.choice([r.uniform(-.999, .999), r.uniform(-1, 1), 0., .5, -.5, .01])
    if name == 'acosh':
        return 1 + abs(f(r, zero=False))
    if name in ('log', 'log10', 'sqrt'):
        return abs(f(r, -40, 40, zero=False))
    if name == 'log1p':
        return r.choice([r.uniform(-.99, 1), abs(f(r))])
    if name in ('gamma', 'lgamma'):
        return r.choice([r.uniform(.1, 20), r.uniform(.1, 3), -r.randint(0, 5) - r.uniform(.2, .8)])
    if name in ('exp', 'expm1', 'sinh', 'cosh'):
        return r.uniform(-30, 30) if r.random() < .5 else f(r, -3, 2)
    if name in ('tan', 'sin', 'cos'):
        return r.uniform(-10, 10) if r.random() < .7 else f(r)
    return f(r)


def gen(r):
    k = r.random()
    if k < .04:
        n = r.randint(0, 6)
        return ('fsum', [('u', nums.fl(r), nums.sd(r)) if r.random() < .6 else ('p', nums.fl(r)) for _ in range(n)],
                r.choice(['list', 'tuple', 'iter']))
    if k < .1:
        name = r.choice(['modf', 'frexp', 'ldexp'])
        c = (name, nums.fl(r) if r.random() < .6 else nums.wide(r), nums.sd(r))
        return c + (r.randint(-20, 70),) if name == 'ldexp' else c
    if k < .16:
        return (r.choice(spec.LOCALLY_CST), [('u', nums.anyf(r), nums.sd(r))])
    if k < .6:
        name = r.choice(spec.ONE_ARG)
        v = domain(r, name) if r.random() < .9 else nums.anyf(r)
        return (name, [('u', v, nums.sd(r))])
    name = r.choice(spec.TWO_ARG)
    if name == 'log':
        vs = [abs(nums.fl(r, zero=False)), abs(nums.fl(r, zero=False))]
    elif name == 'pow':
        vs = [abs(nums.fl(r, zero=False)), nums.fl(r, -2, 1)]
        if r.random() < .3:
            vs = [nums.fl(r), float(r.randint(-3, 5))]
    else:
        vs = [nums.fl(r), nums.fl(r)]
    if r.random() < .05:
        vs[r.randint(0, 1)] = nums.anyf(r)
    m = r.choice([(1, 1), (1, 0), (0, 1)])
    return (name, [('u', v, nums.sd(r)) if u else ('p', v if r.random() < .7 or v != v or abs(v) > 1e9 else int(v))
                   for u, v in zip(m, vs)])


FIXED = []
for _n in spec.ONE_ARG + spec.LOCALLY_CST:
    for _v in [0., -0., .1, -.3, .5, .9, 1., 1.3, 2., 3.7, -1.5, -2.7, 10., nan, inf, -inf, -1.]:
        FIXED.append((_n, [('u', _v, .1)]))
for _n in spec.TWO_ARG:
    for _v in [(.7, 1.3), (2., 3.), (3., 2.), (-1.2, .4), (.4, -1.2), (-1.2, -3.4), (0., 2.), (2., 0.), (-2., 3.), (9., -4.),
               (5.3, 2.), (-5.3, 2.), (2., 7.), (10., 10.), (.5, .5), (1., 3.)]:
        for _m in ((1, 1), (1, 0), (0, 1)):
            FIXED.append((_n, [('u', v, .1) if u else ('p', v) for u, v in zip(_m, _v)]))
for _v in [0., .3, -2.7, 8., 1e30, -.01, 1., inf, nan]:
    FIXED += [('modf', _v, .1), ('frexp', _v, .1), ('ldexp', _v, .1, 3), ('ldexp', _v, .1, -3), ('ldexp', _v, 0., 40),
              ('ldexp', _v, .1, 0)]
FIXED += [('ldexp', 1e-300, 1e-301, 1100), ('ldexp', 1., .1, -1200)]
