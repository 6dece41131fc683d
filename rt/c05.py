# -*- coding: utf-8 -*-
"""C05: undefined derivatives give NaN, never an exception."""
from .base import *
from . import spec, nums
from .c03 import dcheck
from .c04 import tryf, exc_differ
from uncertainties import ufloat, UFloat, umath


def check(case):
    name, args = case
    objs = [ufloat(*o[1:]) if o[0] == 'u' else o[1] for o in args]
    vals = [float(o[1]) for o in args]
    if name in spec.OPS:
        def go():
            return spec.py_op(name, *objs)

        def ref():
            v = spec.py_op(name, *vals)
            if isinstance(v, complex):
                raise ValueError('complex')
            return v
    else:
        def go():
            return getattr(umath, name)(*objs)

        def ref():
            return getattr(math, name)(*vals)
    exp, e2 = tryf(ref)
    res, e1 = tryf(go)
    if exc_differ(e1, e2):
        return 'exception %r instead of %r' % (e1, e2)
    if e1:
        return None
    if name in spec.LOCALLY_CST:
        return None
    if name == 'modf' or name == 'frexp':
        res, exp = res[0], exp[0]
    if not isinstance(res, UFloat) or not same(res.nominal_value, exp):
        return 'nominal value %r instead of %r' % (res, exp)
    us = [(i, o) for i, o in enumerate(objs) if isinstance(o, UFloat)]
    ds = {}
    for i, o in us:
        d = res.derivatives.get(o, 0.)
        ds[i] = d
    fin = all(map(math.isfinite, vals))
    mod = all(v == 0 or 1e-70 < abs(v) < 1e70 for v in vals) and not (
        name in ('gamma', 'lgamma', 'fmod', '%') and not all(v == 0 or 1e-4 < abs(v) < 1e4 for v in vals))
    if fin and name not in ('modf', 'frexp') and not (name in ('gamma', 'lgamma') and abs(vals[0]) > 100):
        ps = spec.partials(name, vals)
        for i, o in us:
            if not mod and math.isnan(ds[i]):
                continue
            if mod:
                e = dcheck('%s, argument %d' % (name, i), ds[i], ps[i], name, vals)
                if e:
                    return e
    if name in ('pow', '**'):
        if vals[1] == 0 and 0 in ds and ds[0] != 0:
            return 'derivative of x**0 with respect to x: %r' % ds[0]
        if vals[0] == 0 and vals[1] > 0 and 1 in ds and ds[1] != 0:
            return 'derivative of 0**y with respect to y: %r' % ds[1]
    # uncertainty
    tot = 0.
    for i, o in us:
        s = o.std_dev
        if s == 0:
            continue
        try:
            tot += (ds[i] * s) ** 2
        except OverflowError:
            return None
    got, e = tryf(lambda: res.std_dev)
    if e:
        return 'std_dev raised %r' % e
    if not close(got, math.sqrt(tot) if tot == tot else nan, 1e-9, 1e-160):
        return 'std_dev %r instead of %r' % (got, math.sqrt(tot))
    for i, o in us:
        if math.isnan(ds[i]) and o.std_dev > 0 and not math.isnan(got):
            return 'std_dev %r instead of NaN' % got


GRID = [0., -0., 1., -1., .5, -.5, 2., -2., 3., .3, 1e-200, 1e200, -1e200, 1e308, 1e160, nan, inf, -inf, 171.6243769563027,
        1e-100, -3., 1.5, -1.5, 4e-9, 709.7, 1e16]
PAIRS = [(s, t) for s in ('u', 'p') for t in ('u', 'p') if 'u' in (s, t)]


def _mk(kind, v, s):
    return ('u', v, s) if kind == 'u' else ('p', v)


FIXED = []
for _n in spec.ONE_ARG + spec.LOCALLY_CST + ['modf', 'frexp']:
    for _v in GRID:
        for _s in (.5, 0.):
            FIXED.append((_n, [('u', _v, _s)]))
for _n in spec.TWO_ARG + ['**']:
    for _v in GRID:
        for _w in GRID:
            FIXED.append((_n, [('u', _v, .5), ('u', _w, .25)]))
    for _v in (0., -1., 1., 2., -2., .5, 1e200, -0.):
        for _w in (0., 1., -1., 2., .5, 1.5, -2.5, 3., -0., 1e200):
            for _k in PAIRS:
                for _s in (.5, 0.):
                    FIXED.append((_n, [_mk(_k[0], _v, _s), _mk(_k[1], _w, .5 - _s)]))
for _n in ['+', '-', '*', '/', '//', '%']:
    for _v in GRID:
        for _w in GRID:
            FIXED.append((_n, [('u', _v, 1e-10), ('u', _w, 1e-10)]))


def gen(r):
    two = r.random() < .6
    name = r.choice(spec.TWO_ARG + ['**', '**', 'pow'] if two else spec.ONE_ARG)
    sp = [0., 1., -1., 0., 2., .5]

    def v():
        k = r.random()
        return r.choice(sp) if k < .5 else (r.choice(GRID) if k < .7 else nums.fl(r))
    if two:
        k = r.choice(PAIRS)
        return (name, [_mk(k[0], v(), nums.sd(r, .4)), _mk(k[1], v(), nums.sd(r, .4))])
    return (name, [('u', v(), nums.sd(r, .4))])
