# -*- coding: utf-8 -*-
"""C15: digits displayed."""
from .base import *
from . import fmtoracle as o, fmtgen
import uncertainties
from uncertainties import ufloat


def check(case):
    nom, sd, prec, u, typ = case
    if fmtgen.bad(nom, sd):
        raise Skip
    spec = fmtgen.cspec(prec, u, typ)
    x = ufloat(nom, sd)
    before = (x.nominal_value, float(x.std_dev))
    t = format(x, spec)
    e = o.check_digits(nom, sd, prec, u, typ, t)
    if e:
        return '%r formatted with %r gives %r: %s' % ((nom, sd), spec, t, e)
    # a computed quantity with the same values is displayed identically
    y = x if (o.finite(sd) and sd and not 1e-150 < sd < 1e150) else x + 0
    if same(float(y.std_dev), sd) and same(y.nominal_value, nom) and math.copysign(1, nom) == math.copysign(1, y.nominal_value):
        if format(y, spec) != t or y.format(spec) != t or ('{:%s}' % spec).format(y) != t:
            return 'a computed quantity is displayed as %r instead of %r' % (format(y, spec), t)


FIXED = [(n, s, p, u, t) for n in (3.1415, -3.1415e-9, 12345678.5, 0., nan, inf) for s in (0., .0123, 987.6, nan, inf, 2.5e7)
         for p in (None, 1, 3) for u in (False, True) for t in ('', 'e', 'f', 'g', '%')] + \
        [(99999.5, .95, None, False, ''), (9.9995, 1e-3, 3, False, 'g'), (1.2, .0095, 1, True, ''), (99.99, .5, 1, False, 'e'),
         (0.5, 0., 0, False, 'f'), (1e5, 1., 0, False, 'g'), (123456., 1e4, 1, True, 'f'), (1e-5, 1e-6, None, False, '')] + \
        [(9.499999999999999e-07, s, 1, False, t) for s in (0., nan, inf) for t in ('', 'g', 'e')] + \
        [(n, v, p, u, t) for n in (nan, inf) for v, p in ((7.0349999999999996e-06, 2), (7.0349999999999996e-06, 3)) for u in (False, True)
         for t in ('', 'e', 'g')]


def gen(r):
    return fmtgen.pair(r) + fmtgen.core_args(r)
