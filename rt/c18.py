# -*- coding: utf-8 -*-
"""C18: printed values parse back to what was printed."""
import re
from fractions import Fraction as Fr
from .base import *
from . import fmtoracle as o, fmtgen
import uncertainties
from uncertainties import ufloat, ufloat_fromstr


def eqv(a, b, extra=0):
    if isinstance(b, float):
        return same(a, b)
    return o.finite(a) and abs(Fr(a) - b) <= abs(b) * Fr(1, 10 ** 14) + Fr(1, 10 ** 320) + extra


def check(case):
    if case[0] == 'repr':
        _, nom, sd = case
        xs = [ufloat(nom, sd)]
        if not (o.finite(sd) and sd > 1e150):
            xs += [xs[0] + 0, 2 * xs[0]]
        for x in xs:
            y = ufloat_fromstr(repr(x))
            if not same(y.nominal_value, x.nominal_value) or not same(float(y.std_dev), float(x.std_dev)):
                return '%s parses to %r, %r' % (repr(x), y.nominal_value, y.std_dev)
        return
    nom, sd, (prec, u, typ), lay = case
    fill, align, sign, zero, width, comma, opts = lay
    if fmtgen.bad(nom, sd) or typ == '%' or 'L' in opts or comma or fill not in ('', ' '):
        raise Skip
    if zero and not (o.finite(nom) and o.finite(sd)):
        raise Skip
    x = ufloat(nom, sd)
    spec = fill + align + sign + zero + width + fmtgen.cspec(prec, u, typ) + opts
    t = format(x, spec)
    tag = 'tg' if prec == 1 else None
    y = ufloat_fromstr(t, tag)
    if y.tag != tag:
        return 'tag %r' % (y.tag,)
    core = format(x, fmtgen.cspec(prec, u, typ))
    c = o.Core(core)
    n, s = o.displayed_values(c, sd)
    if 'S' in opts and not o.finite(nom) and o.finite(sd) and sd:
        # shorthand text: NaN/inf, then the uncertainty between parentheses
        e = o.check_shorthand_nonfinite(t, sd)
        if e:
            return e
        m = o.SH_NONFIN.match(t.strip())
        ex = int(m.group(2) or (m.group(3) or '0').translate(o.FROM_SUP))
        s = Fr(m.group(1)) * Fr(10) ** ex
    if not eqv(y.nominal_value, n) or not eqv(float(y.std_dev), s):
        return '%r formatted with %r gives %r, which parses to %r, %r' % ((nom, sd), spec, t, y.nominal_value, y.std_dev)
    # "equal to the original up to the displayed precision"
    if o.finite(nom):
        unit = Fr(10) ** ((c.exp or 0) - o.decimals(c.n)) if 'e' not in c.n.lower() else abs(Fr(nom))
        if abs(Fr(y.nominal_value) - Fr(nom)) > unit * Fr(51, 100) + o.ulp_tol(nom):
            return '%r formatted with %r gives %r, which parses to %r' % ((nom, sd), spec, t, y.nominal_value)


FIXED = [('repr', n, s) for n in (0., -0., 1., nan, inf, -inf, 1e300, 5e-324, -2.5e-310, .1, 1e22) for s in (0., .1, nan, inf, 1e-300, 5e-324, 1e300)] + \
        [(n, s, (p, u, t), ('', '', '', '', w, '', op)) for n, s in ((3.1415, .01), (-1.5e9, 2.5e7), (0., 0.), (nan, .1), (1., nan), (inf, 1.), (.2, 10.2), (-inf, nan))
         for p, u, t in ((None, False, ''), (2, True, 'e'), (1, False, 'f'), (3, False, 'g')) for w in ('', '20') for op in ('', 'S', 'P', 'p', 'PS')]


def gen(r):
    if r.random() < .2:
        return ('repr',) + fmtgen.pair(r)
    fill, align, sign, zero, width, comma, opts = fmtgen.layout_args(r)
    prec, u, typ = fmtgen.core_args(r)
    return fmtgen.pair(r) + ((prec, u, '' if typ == '%' else typ), (fill if fill in ('', ' ') else '', align if fill in ('', ' ') else '', sign, zero, width, '', opts.replace('L', '')))
