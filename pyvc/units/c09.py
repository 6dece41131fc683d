# -*- coding: utf-8 -*-
"""C09: contracts of correlated_values() and correlated_values_norm(), over the contract of numpy.linalg.eigh (spectral
decomposition of a symmetric matrix), for every positive semi-definite matrix of size 1 to 3."""
from .common import *
from .. import arrays
import numpy
import uncertainties


def arr2(M):
    n = len(M)
    return arrays.build(numpy.ndarray, (n, n), [x for r in M for x in r], 'f')


def arr1(xs):
    return arrays.build(numpy.ndarray, (len(xs),), xs, 'f')


def symmetric(E, name, n):
    M = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            M[i][j] = M[j][i] = E.real('%s_%d_%d' % (name, j, i))
    return M


def psd(E, M):
    """Facts about a positive semi-definite matrix (minors of size 1 and 2)."""
    n = len(M)
    for i in range(n):
        E.fact(M[i][i].t >= 0)
        for j in range(i):
            E.fact(M[i][j].t * M[i][j].t <= M[i][i].t * M[j][j].t)
            E.fact(z3.Implies(z3.Or(M[i][i].t == 0, M[j][j].t == 0), M[i][j].t == 0))


def post(E, vals, noms, cov, tags, old):
    n = len(noms)
    if not E.ensure('a tuple of one quantity for each value', type(vals) is tuple and len(vals) == n
                    and all(type(v) is core.AffineScalarFunc for v in vals), show(vals)):
        return
    lcs = [object.__getattribute__(v, '_linear_part') for v in vals]
    E.ensure('each quantity has its own linear part', len(set(map(id, lcs))) == n)
    for i, (v, x) in enumerate(zip(vals, noms)):
        same_num(E, 'nominal value %d' % i, object.__getattribute__(v, '_nominal_value'), x)
    ds = [E.call(E.getattr, (v, 'derivatives'), {}) if False else E.getattr(v, 'derivatives') for v in vals]
    if not E.ensure('derivatives', all(isinstance(d, dict) and id(d) not in E.side for d in ds), show(ds)):
        return
    order = list(ds[0])
    E.ensure('they depend on the same variables', all(set(map(id, d)) <= set(map(id, order)) for d in ds))
    E.ensure('one variable for each value', len(order) == n and all(type(v) is core.Variable for v in order), show(order))
    E.ensure('the variables are new', all(v is not o for v in order for o in old))
    for k, v in enumerate(order):
        same_num(E, 'nominal value of variable %d' % k, object.__getattribute__(v, '_nominal_value'), 0.)
        t = object.__getattribute__(v, 'tag')
        want = None if tags is None else tags[k]
        E.ensure('tag %d' % k, t is want, show((t, want)))
    for i in range(n):
        for j in range(i + 1):
            tot = rv(0)
            for v in order:
                a, b = ds[i].get(v, 0.), ds[j].get(v, 0.)
                s = object.__getattribute__(v, '_std_dev')
                if not E.ensure('numbers', is_num(a) and is_num(b) and is_num(s) and not any(isinstance(x, float) and not finite_const(x) for x in (a, b, s)), show((a, b, s))):
                    return
                tot = tot + E.term(a) * E.term(b) * E.term(s) * E.term(s)
            E.ensure('covariance (%d, %d)' % (i, j), tot == cov[i][j])
    E.cover('value')


def unchanged(E, xs, snaps):
    E.ensure('inputs not modified', all((x.snapshot() if isinstance(x, arrays.SArr) else [id(y) for y in x]) == s for x, s in zip(xs, snaps)))


def snap(x):
    return x.snapshot() if isinstance(x, arrays.SArr) else [id(y) for y in x]


def correlated(n, form, tagged, zeros=None):
    def h(E):
        coll.setup(E)
        arrays.install(E)
        E.eigh_psd = True
        noms = [E.real('x%d' % i) for i in range(n)]
        tags = tuple(Opaque('tag%d' % i) for i in range(n)) if tagged else None
        old = [coll.new_variable(E, 'old')]
        M = symmetric(E, 'm', n)
        if form == 'cov':
            psd(E, M)
            for i, z in enumerate(zeros or ()):
                E.fact(M[i][i].t == 0 if z else M[i][i].t != 0)
            args = [list(noms), arr2(M)]
            want = [[M[i][j].t for j in range(n)] for i in range(n)]
            f = uncertainties.correlated_values
        else:
            for i in range(n):
                M[i][i] = 1.
            std = [E.real('s%d' % i) for i in range(n)]
            for s in std:
                E.fact(s.t >= 0)
            pairs = list(zip(noms, std))
            args = [pairs, arr2(M)]
            if form == 'norm list':
                args = [arrays.build(numpy.ndarray, (n, 2), [x for p in pairs for x in p], 'f'), [list(r) for r in M]]
            want = [[std[i].t * std[j].t * E.term(M[i][j]) for j in range(n)] for i in range(n)]
            f = uncertainties.correlated_values_norm
        if tags is not None:
            args.append(tags)
        snaps = [snap(x) for x in args]
        r = run(E, f, *args)
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            post(E, r[1], noms, want, tags, old)
        unchanged(E, args, snaps)
    return h


UNITS = {}
for _n in (1, 2, 3):
    for _f in ('cov', 'norm', 'norm list'):
        for _t in (False, True):
            _o = {'covers': ('value',), 'thorough': _n == 3 and (_f == 'norm list' or _t), 'GOAL_TIMEOUT': 2000}
            _name = '%s of %d values%s' % ({'cov': 'correlated_values', 'norm': 'correlated_values_norm'}.get(_f, 'correlated_values_norm, array and list'), _n, ', tags' if _t else '')
            if _n == 3 and _f == 'cov':
                for _m in range(8):
                    _z = [bool(_m >> i & 1) for i in range(3)]
                    UNITS[_name + ', zero variance: %s' % [i for i in range(3) if _z[i]]] = (correlated(_n, _f, _t, _z), _o)
            else:
                UNITS[_name] = (correlated(_n, _f, _t), _o)
