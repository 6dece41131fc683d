# -*- coding: utf-8 -*-
"""C02: quadrature sum, std_dev updates, helpers, std_score."""
from .base import *
from . import expr, nums
import uncertainties
from uncertainties import ufloat, umath, wrap, UFloat


def consistent(x):
    """Internal consistency of one number: components, std_dev, helpers, from its derivatives."""
    der = dict(x.derivatives)
    comp = x.error_components()
    if set(comp) - set(der):
        return 'error_components() for unknown variables'
    tot = 0.
    for v, d in der.items():
        s = v.std_dev
        exp = 0. if s == 0 else abs(d * s)
        got = comp.get(v, 0.)
        if not close(got, exp, 1e-12):
            return 'component %r instead of %r (derivative %r, std_dev %r)' % (got, exp, d, s)
        if exp == exp and exp > 1e150 and not math.isinf(exp):
            raise Skip
        tot += exp ** 2
    exp = math.sqrt(tot)
    got = x.std_dev
    if not close(got, exp, 1e-11, 1e-150):
        return 'std_dev %r instead of %r' % (got, exp)
    if not isinstance(got, float):
        return 'std_dev is %r' % type(got)
    if not same(x.s, got) or not same(uncertainties.std_dev(x), got):
        return '.s or std_dev() differ from .std_dev'
    if not same(x.n, x.nominal_value) or not same(uncertainties.nominal_value(x), x.nominal_value):
        return '.n or nominal_value() differ from .nominal_value'
    for val in (0., 1., -3.5, x.nominal_value):
        try:
            sc = x.std_score(val)
        except ValueError:
            if got != 0:
                return 'std_score raised ValueError'
            continue
        if got == 0:
            return 'std_score with zero std_dev: %r' % sc
        if not close(sc, (val - x.nominal_value) / got, 1e-12):
            return 'std_score(%r) = %r' % (val, sc)


def check(case):
    if case[0] == 'prog':
        w = expr.World()
        for st in case[1]:
            w.step(st)
            if st[0] == 'set' and w.nodes[st[1]].var is not None:
                for i in range(len(w.real)):
                    if (i * 7 + st[1]) % 3 == 0:
                        e = w.verify(i)
                        if e:
                            return 'after an update of std_dev: ' + e
        for i in range(len(w.real)):
            e = w.verify(i) or consistent(w.real[i])
            if e:
                return e
        return None
    if case[0] == 'lin':
        # sum of coef * var with arbitrary standard deviations (NaN, inf, 0), one or several updates
        _, items, updates = case
        vs = [ufloat(n, s) for n, c, s in items]
        f = 0
        for v, (n, c, s) in zip(vs, items):
            f = f + c * v
        sds = [s for n, c, s in items]

        def verify():
            tot = 0.
            for v, (n, c, _), s in zip(vs, items, sds):
                exp = 0. if s == 0 else abs(float(c) * s)
                if not close(f.error_components().get(v, 0.), exp, 1e-12):
                    return 'component %r instead of %r' % (f.error_components().get(v), exp)
                tot += exp * exp
            if not close(f.std_dev, math.sqrt(tot), 1e-11, 1e-150):
                return 'std_dev %r instead of %r' % (f.std_dev, math.sqrt(tot))
            return consistent(f)
        e = verify() if updates and updates[0][0] % 2 else None
        if e:
            return e
        for i, s in updates:
            i %= len(vs)
            vs[i].std_dev = s
            sds[i] = s
            if not same(vs[i].std_dev, s):
                return 'assigned std_dev %r, got %r' % (s, vs[i].std_dev)
            e = verify()
            if e:
                return 'after update: ' + e
        return verify()
    if case[0] == 'bad':
        # undefined/infinite derivative on exact or uncertain variables
        _, d, s, s2, d2 = case
        x, y = ufloat(1., s), ufloat(2., s2)
        f = wrap(lambda a, b: a + b, [lambda a, b: d, lambda a, b: d2])(x, y)
        exp = [0. if s == 0 else abs(d * s), 0. if s2 == 0 else abs(d2 * s2)]
        comp = f.error_components()
        if not close(comp[x], exp[0]) or not close(comp[y], exp[1]):
            return 'components %r, %r instead of %r' % (comp[x], comp[y], exp)
        t = math.sqrt(exp[0] * exp[0] + exp[1] * exp[1])
        if not close(f.std_dev, t):
            return 'std_dev %r instead of %r' % (f.std_dev, t)
        return consistent(f)
    if case[0] == 'plain':
        v = case[1]
        if uncertainties.nominal_value(v) is not v or uncertainties.std_dev(v) != 0:
            return 'helpers on a plain number'
        return None


FIXED = [('bad', d, s, s2, d2) for d in (nan, inf, -inf, 0., -2.) for s in (0., .5) for s2 in (0., .25, inf, nan)
         for d2 in (1., -3., nan, 0.)] + [('plain', v) for v in (1, 2.5, 'a', None, (1, 2))] + \
        [('lin', [(0., c, s)], [(0, t), (1, s)]) for c in (1., -2, 0., 1e-40, 3e30) for s in (0., .5, nan, inf) for t in (0., 2., inf)]


def gen(r):
    if r.random() < .5:
        return ('prog', expr.program(r, 10, reads=.3, sets=.35))
    n = r.randint(1, 6)
    return ('lin', [(nums.fl(r), nums.fl(r, -20, 20), nums.sd(r, .2, .1)) for _ in range(n)],
            [(r.randrange(n), nums.sd(r, .2, .1)) for _ in range(r.randint(0, 4))])
