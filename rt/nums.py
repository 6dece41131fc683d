# -*- coding: utf-8 -*-
"""Number generators."""
import math

nan, inf = float('nan'), float('inf')


def fl(r, lo=-3, hi=3, neg=True, zero=True):
    """A finite float: nice, uniform or log-uniform."""
    k = r.random()
    if zero and k < .06:
        return r.choice([0., -0.]) if neg else 0.
    if k < .3:
        v = float(r.randint(1, 12))
    elif k < .45:
        v = r.choice([.5, .25, 1.5, 2.5, .1, .2, .3, 10., 100., .01])
    elif k < .8:
        v = r.uniform(0, 10)
    else:
        v = 10 ** r.uniform(lo, hi)
    if neg and r.random() < .45:
        v = -v
    return v


def wide(r):
    return fl(r, -60, 60)


def sd(r, zero=.15, special=0.):
    k = r.random()
    if k < zero:
        return 0.
    if k < zero + special:
        return r.choice([nan, inf])
    return r.choice([.1, 1., .5, .01, 2., r.uniform(.001, 3), 10 ** r.uniform(-6, 3)])


def anyf(r):
    k = r.random()
    if k < .1:
        return r.choice([nan, inf, -inf])
    return fl(r)
