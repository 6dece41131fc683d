# -*- coding: utf-8 -*-
"""C14: automatic precision of the uncertainty (PDG rule)."""
from fractions import Fraction as Fr
from .base import *
from . import fmtoracle as o, fmtgen
import uncertainties
from uncertainties import ufloat


def check(case):
    nom, sd, u, typ = case
    if fmtgen.bad(nom, sd) or not o.finite(nom) or not o.finite(sd) or not sd:
        raise Skip
    x = ufloat(nom, sd)
    spec = fmtgen.cspec(None, u, typ)
    t = format(x, spec) if spec else str(x)
    e = o.check_digits(nom, sd, None, u, typ, t)
    if e:
        return '%r formatted with %r gives %r: %s' % ((nom, sd), spec, t, e)
    # the number of significant digits, directly
    if typ == '%':
        sd = sd * 100
    c = o.Core(t)
    cands = {}
    for f in (Fr(1), Fr(10 ** 14 - 1, 10 ** 14), Fr(10 ** 14 + 1, 10 ** 14)):
        k, eff = o.pdg(Fr(sd) * f)
        cands[k, eff if eff != Fr(sd) * f else Fr(sd)] = 1
    disp = Fr(c.u) * Fr(10) ** (c.exp or 0)
    unit = Fr(10) ** ((c.exp or 0) - o.decimals(c.u))
    for k, eff in cands:
        lim = o.limit_for(eff, k)
        # last displayed digit: at the limit (or the units, where integer digits must be shown)
        if unit == Fr(10) ** lim or (unit > 0 and lim > (c.exp or 0) and unit == Fr(10) ** (c.exp or 0)):
            if abs(disp - eff) <= Fr(10) ** lim / 2 + o.ulp_tol(eff) or unit != Fr(10) ** lim:
                return
    return '%r formatted with %r gives %r' % ((nom, sd), spec, t)


FIXED = [(n, float('%de%d' % (m, k)), False, t) for n in (1., 0., -123.456) for m in list(range(100, 1000, 23)) + [354, 355, 949, 950, 999]
         for k in (-9, -3, -2, 0, 3) for t in ('', 'f', 'e')] + \
        [(1., float('%de%d' % (m, k)), False, '') for m in (3541, 3549, 3551, 9489, 9491, 9499, 9501, 9511, 9999, 9949, 9951, 1001, 9990)
         for k in range(-12, 9)]


def gen(r):
    if r.random() < .5:
        nom, sd = fmtgen.pair(r, False)
    else:
        nom = fmtgen.rf(r, False)
        sd = float('%d.%de%d' % (r.randrange(1, 10), r.randrange(10 ** r.randrange(1, 6)), r.choice([r.randrange(-12, 13), r.randrange(-250, 290)])))
    return (r.choice([nom, nom, 0.]), sd, r.random() < .3, r.choice(fmtgen.TYPES))
