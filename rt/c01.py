# -*- coding: utf-8 -*-
"""C01: chain rule through any computation."""
from .base import *
from . import expr, nums
from uncertainties import ufloat, umath, wrap


def check(case):
    if case[0] == 'prog':
        w = expr.World()
        for st in case[1]:
            w.step(st)
        order = list(range(len(w.real)))
        if case[2] == 'rev':
            order.reverse()
        elif case[2] == 'last':
            order = order[-1:]
        for i in order:
            e = w.verify(i)
            if e:
                return e
        return None
    return SPECIAL[case[0]](*case[1:])


def chain(n, form):
    """Deep expressions (no recursion limit)."""
    x, y = ufloat(1.5, .1), ufloat(2, .2)
    t = x
    dx, dy = 1., 0.
    for i in range(n):
        if form == 'add':
            t = t + y
            dy += 1
        elif form == 'radd':
            t = y - t
            dx, dy = -dx, 1 - dy
        elif form == 'mul':
            t = t * 1.0001
            dx, dy = dx * 1.0001, dy * 1.0001
        elif form == 'neg':
            t = -t
            dx, dy = -dx, -dy
        elif form == 'iadd':
            t += x
            dx += 1
    for v, d in ((x, dx), (y, dy)):
        got = t.derivatives.get(v, 0.)
        if not close(got, d, 1e-9):
            return '%s chain of length %d: derivative %r instead of %r' % (form, n, got, d)
    s = math.hypot(dx * .1, dy * .2)
    if not close(t.std_dev, s):
        return 'std_dev %r instead of %r' % (t.std_dev, s)


def manyvars(n):
    xs = [ufloat(i + 1, .1 * (i % 3)) for i in range(n)]
    t = sum(x * (i + 1) for i, x in enumerate(xs)) - 3 * sum(xs)
    for i, x in enumerate(xs):
        if not close(t.derivatives.get(x, 0.), i + 1 - 3, 1e-9, 1e-9):
            return 'variable %d: %r' % (i, t.derivatives.get(x, 0.))


def cancel(v, s):
    x = ufloat(v, s)
    for f in (x - x, 2 * x - x - x, x + x - 2 * x, (x * 3) - (3 * x), x / 1. - x, -x + x):
        if f.derivatives.get(x, 0.) != 0 or f.std_dev != 0 or f.nominal_value != v - v:
            return 'cancellation: %r, derivative %r' % (f, f.derivatives.get(x))
    f = x * x
    if f.derivatives.get(x, 0.) != 2 * v:
        return 'x*x: %r' % f.derivatives.get(x)
    y = ufloat(v, s)
    if s and (x - y).std_dev == 0:
        return 'independent variables cancel'


SPECIAL = {'chain': chain, 'manyvars': manyvars, 'cancel': cancel}
FIXED = [('chain', n, f) for n in (5, 60, 4000) for f in ('add', 'radd', 'mul', 'neg', 'iadd')] + \
        [('manyvars', n) for n in (1, 2, 10, 300)] + [('cancel', v, s) for v in (0., 1., -2.5, 1e10) for s in (0., .5)]


def gen(r):
    return ('prog', expr.program(r, r.choice([4, 8, 14, 22]), reads=r.choice([0, 0, .2, .6])), r.choice(['fwd', 'rev', 'last']))
