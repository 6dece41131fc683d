# -*- coding: utf-8 -*-
"""C10: comparisons."""
from fractions import Fraction
from .base import *
from . import expr, nums
import numpy
from uncertainties import ufloat, wrap, UFloat


class Other(object):
    """An object that is not a number, with its own comparisons."""

    def __eq__(self, o):
        return 'eq'

    def __ne__(self, o):
        return 'ne'

    def __lt__(self, o):
        return 'lt'

    def __gt__(self, o):
        return 'gt'

    def __le__(self, o):
        return 'le'

    def __ge__(self, o):
        return 'ge'
    __hash__ = None


class Plain(object):
    pass


def equal(na, nb, da, db, sds):
    """x == y: the difference has a zero nominal value and a zero uncertainty."""
    d = na - nb
    if not d == 0:
        return False
    tot = 0.
    for v in set(da) | set(db):
        if sds[v] == 0:
            continue
        c = da.get(v, 0.) - db.get(v, 0.)
        t = abs(c * sds[v])
        tot += t * t
        if not t * t == 0:
            return False
    return True


def verify(x, y, nx, ny, dx, dy, sds, plain=False):
    eq = equal(nx, ny, dx, dy, sds)
    exp = {'==': eq, '!=': not eq, '<': nx < ny, '>': nx > ny, '<=': nx < ny or eq, '>=': nx > ny or eq}
    got = {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}
    for k in exp:
        if not isinstance(got[k], (bool, numpy.bool_)):
            return '%s returns %r' % (k, got[k])
        if bool(got[k]) != exp[k]:
            return '%r %s %r is %r (nominal values %r, %r)' % (x, k, y, got[k], nx, ny)
    exp = {'==': eq, '!=': not eq, '<': ny < nx, '>': ny > nx, '<=': ny < nx or eq, '>=': ny > nx or eq}
    if type(y).__module__ == 'numpy':
        return
    got = {'==': y == x, '!=': y != x, '<': y < x, '>': y > x, '<=': y <= x, '>=': y >= x}
    for k in exp:
        if bool(got[k]) != exp[k]:
            return '%r %s %r is %r (nominal values %r, %r)' % (y, k, x, got[k], ny, nx)


def check_nonnumber(x):
    o = Other()
    if (x == o, x != o, x < o, x > o, x <= o, x >= o) != ('eq', 'ne', 'gt', 'lt', 'ge', 'le'):
        return 'comparison with an object which defines comparisons'
    if (o == x, o != x, o < x, o > x, o <= x, o >= x) != ('eq', 'ne', 'lt', 'gt', 'le', 'ge'):
        return 'comparison of an object which defines comparisons'
    for o in (Plain(), 'abc', None, [1], (1, 2), {}):
        if (x == o) is not False or (x != o) is not True or (o == x) is not False or (o != x) is not True:
            return '== with %r' % (o,)
        for n, f in enumerate((lambda: x < o, lambda: x > o, lambda: x <= o, lambda: x >= o,
                               lambda: o < x, lambda: o > x, lambda: o <= x, lambda: o >= x)):
            try:
                f()
            except TypeError:
                continue
            return 'ordering %d with %r does not raise TypeError' % (n, o)


def num(v):
    if isinstance(v, tuple):
        if v[0] == 'frac':
            return Fraction(v[1], v[2])
        if v[0] == 'np':
            return getattr(numpy, v[1])(v[2])
    return v


def check(case):
    if case[0] == 'prog':
        _, prog, pairs, plains = case
        w = expr.World()
        for st in prog:
            w.step(st)
        m = len(w.real)
        snaps = [(x.nominal_value, dict(x.derivatives)) for x in w.real]
        keys = {id(v): k for k, v in w.vars.items()}
        for x in w.real:
            for v in x.derivatives:
                if id(v) not in keys:
                    return 'unknown variable'
        ders = [{keys[id(v)]: d for v, d in x.derivatives.items()} for x in w.real]
        for i, j in pairs:
            i %= m
            j %= m
            if any(1e-160 < abs(d) * s < 1e-140 for d, s in ((c, w.sds[v]) for v, c in ders[i].items())):
                raise Skip
            e = verify(w.real[i], w.real[j], w.real[i].nominal_value, w.real[j].nominal_value, ders[i], ders[j], w.sds)
            if e:
                return e
            x = w.real[i]
            if not (x == x) or x != x or not x <= x or x < x:
                return 'x == x is false for %r' % x
        for i, v in plains:
            i %= m
            x = w.real[i]
            for y in ([x.nominal_value] if v == 'same' else [num(v)]):
                e = verify(x, y, x.nominal_value, float(y), ders[i], {}, w.sds)
                if e:
                    return e
            eq0 = equal(x.nominal_value, 0., ders[i], {}, w.sds)
            if bool(x) is not (not eq0) or (x != 0) is not bool(x):
                return 'bool(%r) is %r' % (x, bool(x))
        if plains:
            e = check_nonnumber(w.real[plains[0][0] % m])
            if e:
                return e
        for x, s in zip(w.real, snaps):
            if (x.nominal_value, x.derivatives) != s:
                return 'comparisons changed a quantity'
        return
    # special values: nominal values, derivatives on common variables
    _, na, nb, da, db, sds = case
    vs = [ufloat(1., s) for s in sds]

    def make(n, d):
        idx = [k for k, c in enumerate(d) if c is not None]
        if not idx:
            return 0 * vs[0] + n if 0 else ufloat(n, 0) * 1, True
        return wrap(lambda *a: n, [(lambda *a, _c=d[k]: _c) for k in idx])(*[vs[k] for k in idx]), False
    x, _ = make(na, da)
    y, _ = make(nb, db)
    dx = {k: c for k, c in enumerate(da) if c is not None}
    dy = {k: c for k, c in enumerate(db) if c is not None}
    sd = dict(enumerate(sds))
    e = verify(x, y, na, nb, dx, dy, sd)
    if e:
        return e
    e = verify(x, nb, na, nb, dx, {}, sd)
    if e:
        return e
    eq0 = equal(na, 0., dx, {}, sd)
    if bool(x) is not (not eq0):
        return 'bool(%r) is %r' % (x, bool(x))
    return check_nonnumber(x)


FIXED = [('sp', a, b, [1.], [1.], [s]) for a in (0., 1., nan, inf, -inf, -0.) for b in (0., 1., nan, inf) for s in (0., 1., nan)] + \
        [('sp', 0., 0., [c], [d], [s]) for c in (1., nan, inf, 0., None) for d in (1., nan, None, 2.) for s in (0., 1.)] + \
        [('sp', 1., 1., [1., None], [None, 1.], [.1, .1]), ('sp', 1., 1., [1., 1e-9], [1., None], [.1, .1]),
         ('sp', 2., 1., [1., None], [None, 1.], [0., 0.]), ('sp', 1., 1., [1., 2.], [2., 2.], [0., .5])]


def gen(r):
    if r.random() < .6:
        prog = expr.program(r, 6, reads=.1, sets=.2)
        return ('prog', prog, [(r.randrange(50), r.randrange(50)) for _ in range(r.randint(1, 6))],
                [(r.randrange(50), r.choice(['same', 'same', 0, 1, 2.5, True, ('frac', 1, 2), ('np', 'float64', 1.5), ('np', 'int64', 2),
                                             ('np', 'float32', .5), nan, inf, nums.fl(r)])) for _ in range(r.randint(0, 4))])
    k = r.randint(1, 3)
    n = r.choice([nums.anyf(r), 0.])

    def row():
        return [r.choice([None, 1., 1., 2., nums.fl(r), nan if r.random() < .3 else 0.]) for _ in range(k)]
    a = row()
    b = r.choice([a, row(), [c if r.random() < .7 else None for c in a]])
    m = r.choice([n, n, nums.anyf(r), n * (1 + 2e-16)])
    return ('sp', n, m, a, b, [nums.sd(r, .3, .05) for _ in range(k)])
