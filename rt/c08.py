# -*- coding: utf-8 -*-
"""C08: covariance and correlation matrices."""
from .base import *
from . import expr, nums
import numpy
import uncertainties
from uncertainties import ufloat, wrap, UFloat


def oracle(seq):
    """Entries and error scales from the derivatives and the current standard deviations."""
    out = []
    for a in seq:
        row = []
        for b in seq:
            da, db = a.derivatives, b.derivatives
            t = m = 0.
            for v in da:
                if v in db and v.std_dev != 0:
                    p = da[v] * db[v] * (float(v.std_dev) * float(v.std_dev))
                    t += p
                    m += abs(p)
            row.append((t, m))
        out.append(row)
    return out


def verify(seq, arg):
    seq = list(seq)
    before = [id(x) for x in seq]
    cov = uncertainties.covariance_matrix(arg)
    n = len(seq)
    if not isinstance(cov, list) or len(cov) != n or any(not isinstance(r, list) or len(r) != n for r in cov):
        return 'covariance_matrix() is not a square list of lists: %r' % (cov,)
    if [id(x) for x in arg] != before:
        return 'the argument was modified'
    exp = oracle(seq)
    if any(math.isfinite(m) and (m > 1e290 or 0 < m < 1e-290) for r in exp for t, m in r):
        raise Skip
    for i in range(n):
        for j in range(n):
            g, (t, m) = cov[i][j], exp[i][j]
            if not isinstance(g, float):
                return 'entry (%d, %d) is %r' % (i, j, g)
            if not close(g, t, 0., 1e-12 * m):
                return 'entry (%d, %d): %r instead of %r' % (i, j, g, t)
            if not same(g, cov[j][i]):
                return 'the matrix is not symmetric at (%d, %d): %r and %r' % (i, j, g, cov[j][i])
            if not set(seq[i].derivatives) & set(seq[j].derivatives) and g != 0:
                return 'covariance %r for quantities without common variable' % g
        s = float(seq[i].std_dev)
        if not close(cov[i][i], s * s, 1e-11, 1e-300):
            return 'diagonal %r, standard deviation %r' % (cov[i][i], s)
    return cov


def verify_corr(seq, cov):
    n = len(seq)
    if not n:
        return
    sds = [float(x.std_dev) for x in seq]
    if any(s != 0 and math.isfinite(s) and not 1e-140 < s < 1e140 for s in sds):
        return
    with numpy.errstate(all='ignore'):
        corr = uncertainties.correlation_matrix(seq)
    if numpy.shape(corr) != (n, n):
        return 'correlation_matrix() has shape %r' % (numpy.shape(corr),)
    for i in range(n):
        for j in range(n):
            if sds[i] == 0 or sds[j] == 0:
                continue
            with numpy.errstate(all='ignore'):
                exp = numpy.float64(cov[i][j]) / sds[i] / sds[j]
            if not close(corr[i][j], exp, 1e-9, 1e-12):
                return 'correlation (%d, %d): %r instead of %r' % (i, j, corr[i][j], exp)


def check(case):
    if case[0] == 'prog':
        _, prog, picks, form = case
        w = expr.World()
        for st in prog:
            w.step(st)
        seq = [w.real[i % len(w.real)] for i in picks]
        # derivatives against the forward-mode oracle, hence covariances against it too
        for i in picks:
            e = w.verify(i % len(w.real))
            if e:
                return e
        snap = [(x.nominal_value, float(x.std_dev), dict(x.derivatives)) for x in seq]
        arg = seq if form == 'list' else tuple(seq) if form == 'tuple' else numpy.array(seq, dtype=object) \
            if seq else numpy.array([], dtype=object)
        c = verify(seq, arg)
        if isinstance(c, str):
            return c
        e = verify_corr(seq, c)
        if e:
            return e
        if any(a != (x.nominal_value, float(x.std_dev), dict(x.derivatives)) for a, x in zip(snap, seq)):
            return 'covariance_matrix() changed a quantity'
        # with the oracle's own derivatives
        for a in range(len(seq)):
            for b in range(len(seq)):
                na, nb = w.nodes[picks[a] % len(w.real)], w.nodes[picks[b] % len(w.real)]
                t = er = 0.
                for k in na.d:
                    if k in nb.d and w.sds[k]:
                        s2 = w.sds[k] ** 2
                        t += na.d[k] * nb.d[k] * s2
                        er += s2 * ((na.e[k] + 1e-11 * na.a[k]) * (nb.a[k] + nb.e[k]) +
                                    (nb.e[k] + 1e-11 * nb.a[k]) * (na.a[k] + na.e[k]))
                if not abs(c[a][b] - t) <= er + 1e-300:
                    return 'entry (%d, %d): %r instead of %r (tolerance %g)' % (a, b, c[a][b], t, er)
        return
    # linear map of variables: coefs[i][k] of variable k in quantity i (None: absent), incl. NaN, inf
    _, sds, coefs = case
    vs = [ufloat(0., s) for s in sds]
    seq = []
    for row in coefs:
        idx = [k for k, c in enumerate(row) if c is not None]
        if not idx:
            seq.append(ufloat(1., .25))
            continue
        f = wrap(lambda *a: 1.5, [(lambda *a, _c=row[k]: _c) for k in idx])
        seq.append(f(*[vs[k] for k in idx]))
    for _ in range(2):
        exp = oracle(seq)
        for i, row in enumerate(coefs):
            for j, row2 in enumerate(coefs):
                t = 0.
                if i == j and not any(c is not None for c in row):
                    t = .0625
                for k in range(len(sds)):
                    if row[k] is not None and row2[k] is not None and sds[k] != 0:
                        t += row[k] * row2[k] * (sds[k] * sds[k])
                if not close(exp[i][j][0], t, 1e-10, 1e-12 * exp[i][j][1]):
                    return 'derivatives'
        c = verify(seq, seq)
        if isinstance(c, str):
            return c
        e = verify_corr(seq, c)
        if e:
            return e
        sds = list(sds[1:]) + [.75]
        for v, s in zip(vs, sds):
            v.std_dev = s


FIXED = [('lin', [0., 1.], [[nan, 2.], [1., 1.]]), ('lin', [0., 0.], [[nan, inf], [1., 1.], [None, None]]),
         ('lin', [1.], []), ('lin', [2.], [[3.]]), ('prog', [('var', 1., .1)], [], 'list'),
         ('prog', [('var', 1., .1)], [], 'tuple'), ('prog', [('var', 1., .1)], [0, 0, 0], 'array'),
         ('prog', [('var', 1., .1), ('var', 2., .2), ('bin', '+', 0, 1), ('bin', '-', 0, 1)], [0, 1, 2, 3], 'list')]


def gen(r):
    if r.random() < .6:
        return ('prog', expr.program(r, 8, reads=.1, sets=.2), [r.randrange(50) for _ in range(r.randint(0, 6))],
                r.choice(['list', 'list', 'tuple', 'array']))
    k = r.randint(1, 5)
    n = r.randint(1, 5)

    def c():
        q = r.random()
        if q < .35:
            return None
        if q < .45:
            return r.choice([nan, inf, 0., -inf])
        return nums.fl(r, -8, 8)
    return ('lin', [nums.sd(r, .25, .08) for _ in range(k)], [[c() for _ in range(k)] for _ in range(n)])
