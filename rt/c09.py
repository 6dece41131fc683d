# -*- coding: utf-8 -*-
"""C09: correlated values reproduce the requested covariances."""
from .base import *
from . import nums
import numpy
import uncertainties
from uncertainties import ufloat, UFloat
from uncertainties.core import Variable


def build(case):
    """Positive semi-definite matrix from its factor: cov = D F F^T D, with the correlation matrix."""
    _, form, noms, scales, F, tags = case
    F = numpy.array(F, dtype=float)
    C = F.dot(F.T)
    d = numpy.sqrt(numpy.diag(C))
    dd = numpy.where(d == 0, 1., d)
    corr = C / dd / dd[:, None]
    for i in range(len(corr)):
        if d[i] == 0:
            corr[i, :] = corr[:, i] = 0.
            corr[i, i] = 1.
        else:
            corr[i, i] = 1.
    corr = (corr + corr.T) / 2
    sd = numpy.array(scales, dtype=float) * (d != 0)
    cov = corr * sd * sd[:, None]
    return corr, sd, cov


def common(vals, noms, sd, cov, tags, n):
    vals = list(vals)
    if len(vals) != n or any(not isinstance(v, UFloat) for v in vals):
        return 'result %r' % (vals,)
    for v, nom in zip(vals, noms):
        if type(v.nominal_value) is not float or not same(v.nominal_value, float(nom)):
            return 'nominal value %r instead of %r' % (v.nominal_value, nom)
    allv = {}
    order = list(vals[0].derivatives)
    for v in vals:
        for k in v.derivatives:
            allv[id(k)] = k
            if not isinstance(k, Variable):
                return 'variable %r' % (k,)
    if len(allv) > n or len(order) != n:
        return '%d variables for %d values' % (len(allv), n)
    got_tags = [k.tag for k in order]
    if got_tags != (list(tags) if tags is not None else [None] * n):
        return 'tags %r instead of %r' % (got_tags, tags)
    # covariances, through the derivatives themselves
    for i in range(n):
        for j in range(n):
            di, dj = vals[i].derivatives, vals[j].derivatives
            t = sum(di[k] * dj[k] * float(k.std_dev) ** 2 for k in di if k in dj)
            if not abs(t - cov[i][j]) <= 5e-14 * (n + 3) * sd[i] * sd[j]:
                return 'covariance (%d, %d): %r instead of %r' % (i, j, t, cov[i][j])
        s = float(vals[i].std_dev)
        if not abs(s - sd[i]) <= 5e-14 * (n + 3) * sd[i]:
            return 'standard deviation %r instead of %r' % (s, sd[i])
    got = uncertainties.covariance_matrix(vals)
    for i in range(n):
        for j in range(n):
            if not abs(got[i][j] - cov[i][j]) <= 5e-14 * (n + 3) * sd[i] * sd[j]:
                return 'covariance_matrix (%d, %d): %r instead of %r' % (i, j, got[i][j], cov[i][j])
    return None


def conv(a, how):
    if how == 'list':
        return a.tolist()
    if how == 'F':
        return numpy.asfortranarray(a)
    return a


def check_near(case):
    """Almost perfectly correlated quantities: the uncertainty of their difference."""
    _, k, sign, form = case
    r = sign * (1 - 10. ** -k)
    if form == 'norm':
        a, b = uncertainties.correlated_values_norm([(1., 1.), (2., 1.)], [[1., r], [r, 1.]])
    else:
        s = float(form)
        a, b = uncertainties.correlated_values([1., 2.], numpy.array([[1., r], [r, 1.]]) * s * s)
        a, b = a / s, b / s
    got, t = float((a - sign * b).std_dev) ** 2, 2 * (1 - abs(r))
    if not abs(got - t) <= 4e-15:
        return 'variance of the difference: %r instead of %r' % (got, t)


def check_weak(case):
    """Weak correlations: none is lost."""
    _, k, sign, form = case
    r = sign * 10. ** -k
    C = numpy.array([[1., r, -2 * r], [r, 1., 0.], [-2 * r, 0., 1.]])
    if form == 'norm':
        s, u = 1., uncertainties.correlated_values_norm([(1., 1.), (2., 1.), (3., 1.)], C)
    else:
        s = float(form)
        u = uncertainties.correlated_values([1., 2., 3.], C * s * s)
    got = numpy.array(uncertainties.covariance_matrix(u)) / s / s
    if not numpy.all(abs(got - C) <= 8e-15):
        return 'covariances %r instead of %r' % (got.tolist(), C.tolist())


def check(case):
    if case[0] == 'near':
        return check_near(case)
    if case[0] == 'weak':
        return check_weak(case)
    corr, sd, cov = build(case)
    _, form, noms, scales, F, tags = case
    n = len(noms)
    tl = None if tags is None else tags[:n]
    prev = ufloat(1., .5)
    if form.startswith('cov'):
        if any(0 < s < 1e-140 or s > 1e140 for s in sd):
            raise Skip
        m = conv(cov.copy(), form[3:])
        if form == 'covint':
            m = numpy.array([[4, 1], [1, 1]])
            noms, n, cov, tl = (noms * 2)[:2], 2, m.astype(float), None if tags is None else (tags * 2)[:2]
            sd = numpy.sqrt(numpy.diag(cov))
        if form == 'covlist':
            m = numpy.array(m)
        m0 = numpy.array(m, copy=True)
        nn = list(noms) if form != 'covF' else numpy.array(noms)
        n0 = list(nn)
        kw = {} if tl is None else {'tags': tl}
        vals = uncertainties.correlated_values(nn, m, **kw)
        vals2 = uncertainties.correlated_values(nn, m, *([] if tl is None else [tl]))
        if not numpy.array_equal(m, m0) or list(nn) != n0:
            return 'the inputs were modified'
    else:
        pairs = [(float(a), float(s)) for a, s in zip(noms, sd)]
        m = conv(corr.copy(), form[4:])
        if form == 'norm_arr':
            pairs = numpy.array(pairs)
        m0, p0 = numpy.array(m, copy=True), numpy.array(pairs, copy=True)
        if form == 'normuf':
            pairs = [ (float(a), float(s)) for a, s in zip(noms, sd)]
        kw = {} if tl is None else {'tags': tl}
        vals = uncertainties.correlated_values_norm(pairs, m, **kw)
        vals2 = uncertainties.correlated_values_norm(pairs, m, *([] if tl is None else [tl]))
        if not numpy.array_equal(m, m0) or not numpy.array_equal(numpy.array(pairs), p0):
            return 'the inputs were modified'
    if tags is not None and tl != tags[:n] and form != 'covint':
        return 'tags modified'
    e = common(vals, noms, sd, cov, tl, n) or common(vals2, noms, sd, cov, tl, n)
    if e:
        return e
    ids = {id(k) for v in vals for k in v.derivatives}
    if ids & {id(k) for v in vals2 for k in v.derivatives} or id(prev) in ids:
        return 'the variables are not new'
    # linear combinations have the uncertainty given by the matrix
    c = numpy.array([(-1) ** i * (1. + i / 3.) for i in range(n)])
    f = sum(float(a) * v for a, v in zip(c, vals))
    t = float(numpy.dot(c, numpy.dot(cov, c)))
    sc = float(numpy.sum(numpy.abs(c) * sd)) ** 2
    if not abs(float(f.std_dev) ** 2 - t) <= 5e-14 * (n + 3) * sc + 1e-300:
        return 'uncertainty of a linear combination: %r instead of %r' % (float(f.std_dev) ** 2, t)


FIXED = [('near', k, sg, f) for k in range(1, 15) for sg in (1, -1) for f in ('norm', '1', '1e-9', '1e7', '.3')] + [
    ('weak', k, sg, f) for k in range(1, 14) for sg in (1, -1) for f in ('norm', '1', '1e-9', '1e7', '.3')] + [(0, form, [1., 2.][:k], [.1, 2.][:k], F, t) for form in ('cov', 'covint', 'covlist', 'covF', 'norm', 'norm_arr') for k, F in
         ((1, [[1.]]), (2, [[1., 0.], [0., 1.]]), (2, [[1.], [1.]]), (2, [[1.], [-1.]]), (2, [[1., .3], [0., 0.]]), (1, [[0.]]))
         for t in (None, ['a', 'b'])] + \
        [(0, 'cov', [1., 2., 3.], [1e-8, 1., 1e7], [[1., 0, 0], [.5, .5, 0], [.3, .3, .3]], None),
         (0, 'cov', [1., 2., 3.], [1e-8, 1., 1e7], [[1.], [-1.], [1.]], ['x', 'y', None])]


def gen(r):
    n = r.randint(1, 6)
    rank = r.choice([n, n, 1, r.randint(1, n)])
    F = [[r.gauss(0, 1) for _ in range(rank)] for _ in range(n)]
    if r.random() < .3 and n > 1:
        i, j = r.sample(range(n), 2)
        F[i] = [r.choice([1., -1., 2.]) * q for q in F[j]]
    if r.random() < .25:
        F[r.randrange(n)] = [0.] * rank
    scales = [10 ** r.uniform(-8, 8) if r.random() < .4 else r.uniform(.1, 3) for _ in range(n)]
    if r.random() < .1:
        scales = [s * 1e-30 for s in scales]
    return (0, r.choice(['cov', 'covlist', 'covF', 'norm', 'normlist', 'norm_arr', 'cov', 'norm']), [nums.fl(r, -6, 6) for _ in range(n)],
            scales, F, r.choice([None, None, ['t%d' % i for i in range(n)], [None] * n, ['a'] * n]))
