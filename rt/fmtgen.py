# -*- coding: utf-8 -*-
"""Generators of values and format specifications."""
import math
from .base import *
from . import fmtoracle as o

EDGE = [9.5, 9.49, 9.99, 9.995, 3.54, 3.55, 3.541, 3.549, 3.5501, 9.4999999, 99.5, 95, 0.95, 99999.5, 9999.5, 1e-4, 9.9999e-5, 1, 1.0049,
        9.49999, 9.5001, 9.9501, 999.5, 9.9949, 5, .5, 2.5, 1.5, 1e12, 999999999999.5]
TYPES = ['', '', 'e', 'E', 'f', 'F', 'g', 'G', '%']


def rf(r, special=True):
    k = r.random()
    if special:
        if k < .05:
            return r.choice([0., -0.])
        if k < .08:
            return nan
        if k < .11:
            return r.choice([inf, -inf])
    if k < .5:
        return float('%s%d.%0*de%d' % (r.choice(['', '-']), r.randrange(1, 10), r.randrange(1, 5), r.randrange(0, 10), r.randrange(-7, 15)))
    if k < .62:
        return r.choice([-1, 1]) * r.choice(EDGE) * 10. ** r.randrange(-6, 7)
    if k < .65:  # next to a rounding limit
        v = float('%d%s5e%d' % (r.randrange(1, 1000), r.choice(['', '.']), r.randrange(-9, 9)))
        return r.choice([-1, 1]) * math.nextafter(v, r.choice([0., inf, v]))
    if k < .68:
        return r.choice([-1, 1]) * 10. ** r.randrange(-280, 300) * (r.random() + .1)
    return r.choice([-1, 1]) * (r.random() + 1e-9) * 10 ** r.uniform(-8, 14)


def pair(r, special=True):
    nom, sd = rf(r, special), abs(rf(r, special))
    if r.random() < .5 and sd and o.finite(sd) and o.finite(nom) and nom:
        sd = abs(nom) * 10 ** r.uniform(-5, 2)
    return nom, sd


def bad(nom, sd):
    return (sd and sd < 1e-290) or (nom and abs(nom) < 1e-290) or (sd and nom and o.finite(sd) and o.finite(nom) and sd / abs(nom) < 1e-200) \
        or (o.finite(nom) and abs(nom) > 1e300) or (o.finite(sd) and sd > 1e300)


def cspec(prec, u, typ):
    return ('' if prec is None else '.%d' % prec) + ('u' if u else '') + typ


def core_args(r):
    prec = r.choice([None, None, None, 0, 1, 2, 3, 5, 8])
    u = r.random() < .5
    if u and prec == 0:
        prec = 1
    return prec, u, r.choice(TYPES)


def layout_args(r):
    fill = r.choice(['', '', '*', ' ', 'x', '0', u'\xe9'])
    align = r.choice(['', '<', '>', '^'])
    if fill and not align:
        fill = ''
    sign = r.choice(['', '+', '-', ' '])
    zero = r.choice(['', '', '0'])
    width = r.choice(['', '', '1', '8', '15', '25'])
    comma = r.choice(['', '', ','])
    opts = ''.join(r.sample('PSLp', r.randrange(0, 4)))
    return fill, align, sign, zero, width, comma, opts
