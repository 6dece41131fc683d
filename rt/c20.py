# -*- coding: utf-8 -*-
"""C20: inverse, pseudo-inverse, wrapped array functions."""
from .base import *
from . import nums
import numpy
import uncertainties
from uncertainties import ufloat, UFloat, unumpy
from uncertainties.unumpy import ulinalg, core as ucore


def element(v, dep, vs, form):
    """An element with nominal value v depending on several variables (name -> coefficient)."""
    if not dep:
        return v
    f = None
    for k, c in dep:
        t = float(c) * (vs[k % len(vs)] - vs[k % len(vs)].nominal_value)
        f = t if f is None else f + t
    return f + v


def build(vals, deps, vs):
    m, n = len(vals), len(vals[0])
    a = numpy.empty((m, n), dtype=object)
    D = [numpy.zeros((m, n)) for _ in vs]
    N = numpy.zeros((m, n))
    for i in range(m):
        for j in range(n):
            a[i, j] = element(vals[i][j], deps[i][j], vs, 0)
            N[i, j] = a[i, j].nominal_value if isinstance(a[i, j], UFloat) else a[i, j]
            for k, c in deps[i][j]:
                D[k % len(vs)][i, j] += c
    return a, N, D


def snap(a):
    return [(x.nominal_value, dict(x.derivatives)) if isinstance(x, UFloat) else x for x in numpy.asarray(a).ravel()]


def flat(a):
    return [[numpy.asarray(a)[i, j] for j in range(a.shape[1])] for i in range(a.shape[0])]


def compare(res, B, dBs, vs, tol, what):
    """Result against nominal values B and differentials dBs; tol: (absolute for values, per variable)."""
    if not isinstance(res, numpy.ndarray) or res.shape != B.shape:
        return '%s: shape %r' % (what, getattr(res, 'shape', None))
    for idx in numpy.ndindex(*B.shape):
        x = numpy.asarray(res)[idx]
        n = x.nominal_value if isinstance(x, UFloat) else x
        if not abs(n - B[idx]) <= tol[0]:
            return '%s: nominal value %r instead of %r' % (what, n, B[idx])
        for v, dB, t in zip(vs, dBs, tol[1]):
            d = x.derivatives.get(v, 0.) if isinstance(x, UFloat) else 0.
            if not abs(d - dB[idx]) <= t:
                return '%s: derivative %r instead of %r (element %r)' % (what, d, dB[idx], idx)
        if isinstance(x, UFloat):
            for v in x.derivatives:
                if not any(v is w for w in vs):
                    return '%s: unknown variable' % what
        else:
            return '%s: element %r' % (what, x)


def pinv_diff(A, B, dA):
    m, n = A.shape
    return -B @ dA @ B + B @ B.T @ dA.T @ (numpy.eye(m) - A @ B) + (numpy.eye(n) - B @ A) @ dA.T @ B.T @ B


def norm(a):
    return float(numpy.max(numpy.abs(a))) if a.size else 0.


def check(case):
    with numpy.errstate(all='ignore'):
        return _check(case)


def _check(case):
    kind, vals, deps, sds, cont, rank = case[:6]
    vs = [ufloat(1.5 + i, s) for i, s in enumerate(sds)]
    a, N, D = build(vals, deps, vs)
    m, n = N.shape
    used = any(numpy.any(d) for d in D) or any(d for r_ in deps for d in r_)
    arg = {'array': lambda: a, 'umatrix': lambda: a.view(unumpy.matrix), 'npmatrix': lambda: numpy.asmatrix(a), 'list': lambda: a.tolist()}[cont]()
    before = snap(a)
    ismat = cont in ('umatrix', 'npmatrix')
    dep_vs = [i for i, v in enumerate(vs) if any(k % len(vs) == i for r_ in deps for d in r_ for k, c in d)]
    if kind in ('inv', 'I'):
        try:
            cond = numpy.linalg.cond(N)
        except numpy.linalg.LinAlgError:
            raise Skip
        if not cond < 1e8:
            raise Skip
        if kind == 'I':
            if cont != 'umatrix':
                raise Skip
            res = arg.I
        else:
            res = ulinalg.inv(arg)
        B = numpy.linalg.inv(N)
        nB, nA = norm(B), norm(N)
        if not used:
            if type(res) is not (numpy.matrix if ismat else numpy.ndarray) and not (ismat and isinstance(res, numpy.matrix)):
                return 'result type %r' % type(res)
            if not numpy.array_equal(numpy.asarray(res), B):
                return 'plain inverse differs from NumPy'
            return None if snap(a) == before else 'the input was modified'
        if isinstance(res, numpy.matrix) != ismat or (ismat and type(res) is not unumpy.matrix):
            return 'result type %r for %s' % (type(res), cont)
        dBs = [-B @ d @ B for d in D]
        e = compare(res, B, dBs, vs, (1e-12 * nB * cond, [1e-11 * cond * n * n * nB * nB * (norm(d) + 1e-300) for d in D]), kind)
        if e:
            return e
        # A * B: identity with zero uncertainty
        P = numpy.dot(numpy.asarray(a), numpy.asarray(res))
        for i in range(n):
            for j in range(n):
                x = P[i, j]
                if not isinstance(x, UFloat):
                    x = ufloat(x, 0)
                if not abs(x.nominal_value - (i == j)) <= 1e-9 * cond * n:
                    return 'A*B is not the identity: %r' % x
                for v, d in zip(vs, D):
                    if not abs(x.derivatives.get(v, 0.)) <= 1e-9 * cond * n * n * nB * (norm(d) + 1e-300):
                        return 'A*B has a derivative: %r' % x.derivatives.get(v, 0.)
    elif kind in ('pinv', 'pI'):
        rcond = case[6]
        sv = numpy.linalg.svd(N, compute_uv=False)
        rc = rcond if rcond is not None else 1e-15
        if kind == 'pI' and (cont != 'umatrix' or m == n):
            raise Skip
        if kind == 'pI':
            rc, rcond = 1e-15, None
        cut = rc * sv[0] if len(sv) else 0
        if sv[0] == 0:
            raise Skip
        big = sv[sv > cut]
        small = sv[sv <= cut]
        if len(big) == 0 or big[-1] < 1e-5 * sv[0] or (len(small) and cut < max(1e-12 * sv[0], 10 * small[0])) or big[-1] < 1.1 * cut:
            raise Skip       # rank not well defined at this precision
        if len(small) and small[0] > 1e-13 * sv[0] and used:
            # rank reduced by the cut-off: only the nominal value is specified
            res = ulinalg.pinv(arg) if rcond is None else ulinalg.pinv(arg, rcond)
            R, B = unumpy.nominal_values(res), numpy.linalg.pinv(N, rc)
            if numpy.shape(R) != B.shape or not norm(numpy.asarray(R) - B) <= 1e-10 * norm(B):
                return 'pseudo-inverse with rcond=%r: %r instead of %r' % (rcond, R, B)
            return
        if len(big) < min(m, n):
            # constant rank: the differentials must keep the rank; documented for real matrices of constant rank
            pass
        res = arg.I if kind == 'pI' else (ulinalg.pinv(arg) if rcond is None else ulinalg.pinv(arg, rcond))
        B = numpy.linalg.pinv(N) if rcond is None else numpy.linalg.pinv(N, rcond)
        cond = sv[0] / big[-1]
        nB = norm(B)
        if not used:
            if not numpy.array_equal(numpy.asarray(res), B):
                return 'plain pseudo-inverse differs from NumPy'
            return None if snap(a) == before else 'the input was modified'
        if isinstance(res, numpy.matrix) != ismat or (ismat and type(res) is not unumpy.matrix):
            return 'result type %r for %s' % (type(res), cont)
        dBs = [pinv_diff(N, B, d) for d in D]
        e = compare(res, B, dBs, vs, (1e-11 * nB * cond, [1e-10 * cond * cond * (m + n) ** 2 * nB * nB * (norm(d) + 1e-300) for d in D]), kind)
        if e:
            return e
    else:
        f = FUNCS[kind]
        extra, kw = case[6]
        g = ucore.wrap_array_func(f)
        if cont == 'list':
            raise Skip
        try:
            exp = f(N if not ismat else numpy.asmatrix(N), *extra, **kw)
        except numpy.linalg.LinAlgError:
            raise Skip
        if not numpy.all(numpy.isfinite(exp)) or norm(numpy.asarray(exp)) > 1e6:
            raise Skip
        res = g(arg, *extra, **kw)
        if not used:
            if not numpy.array_equal(numpy.asarray(res), numpy.asarray(exp)) or isinstance(numpy.asarray(res).ravel()[0], UFloat):
                return 'wrapped function without uncertainty: %r instead of %r' % (res, exp)
            return None if snap(a) == before else 'the input was modified'
        if numpy.shape(res) != numpy.shape(exp):
            return 'shape %r instead of %r' % (numpy.shape(res), numpy.shape(exp))
        E = numpy.asarray(exp)
        R = numpy.empty(E.shape, dtype=object)
        R[...] = numpy.asarray(res)
        for k, (v, d) in enumerate(zip(vs, D)):
            h = 1e-4 / (1 + norm(d))
            up, dn = numpy.asarray(f(N + h * d, *extra, **kw)), numpy.asarray(f(N - h * d, *extra, **kw))
            num = (up - dn) / 2 / h
            h2 = h * 3
            num2 = (numpy.asarray(f(N + h2 * d, *extra, **kw)) - numpy.asarray(f(N - h2 * d, *extra, **kw))) / 2 / h2
            curv = (up - 2 * E + dn) / h / h
            shift = max(float(v.std_dev) / 1e5, 1e-8 * abs(v.nominal_value)) or 1e-8
            # documented: one-sided numerical differentiation; only compared where it is accurate
            if kind in ('f_sq', 'f_sc', 'f_inv') and shift * norm(d) * (1 + norm(N)) * (1 + norm(E)) > 1e-3:
                raise Skip
            for idx in numpy.ndindex(*E.shape):
                x = R[idx]
                if not isinstance(x, UFloat) or not abs(x.nominal_value - E[idx]) <= 1e-9 * (1 + abs(E[idx])):
                    return 'element %r instead of %r' % (x, E[idx])
                got = x.derivatives.get(v, 0.)
                sc = norm(E) + norm(num) + norm(d)
                tol = 5 * abs(num[idx] - num2[idx]) + 2 * shift * (abs(curv[idx]) + norm(num)) + 1e-6 * sc + 1e-14 * norm(E) / shift * 10
                if tol > .05 * max(norm(num), 1e-3):
                    raise Skip
                if not abs(got - num[idx]) <= tol:
                    return 'wrapped function: derivative %r instead of %r (tolerance %g)' % (got, num[idx], tol)
    if cont != 'list' and snap(a) != before:
        return 'the input was modified'


def _sq(x):
    return numpy.asarray(x) ** 2


def _sincos(x, k=1.):
    return numpy.sin(k * numpy.asarray(x)).dot(numpy.cos(numpy.asarray(x).T))


def _scale(x, k, add=0.):
    return numpy.asarray(x) * k + add


def _inv(x):
    return numpy.linalg.inv(x)


def _tr(x):
    return numpy.asarray(x).T.copy()


def _colsum(x):
    return numpy.asarray(x).sum(axis=0)


FUNCS = {'f_sq': _sq, 'f_sc': _sincos, 'f_scale': _scale, 'f_inv': _inv, 'f_tr': _tr, 'f_col': _colsum}
EXTRA = {'f_sq': [((), {})], 'f_sc': [((), {}), ((2.,), {}), ((), {'k': .5})], 'f_scale': [((3.,), {}), ((-2.,), {'add': 1.})], 'f_inv': [((), {})],
         'f_tr': [((), {})], 'f_col': [((), {})]}
_I = [[2., .5], [-1., 3.]]
_R = [[1., 2., 3.], [0., -1., 2.]]
_D2 = [[[(0, 1.)], [(1, 1.)]], [[(0, -2.), (2, .5)], []]]
_D3 = [[[(0, 1.)], [(1, 1.)], []], [[(0, -2.), (2, .5)], [], [(2, 1.)]]]
_N2, _N3 = [[[], []], [[], []]], [[[], [], []], [[], [], []]]
FIXED = [(k, _I, d, [.1, .2, 0.], c, 2) for k in ('inv', 'I') for d in (_D2, _N2) for c in ('array', 'umatrix', 'npmatrix', 'list')] + \
        [(k, x, d, [.1, .2, 0.], c, 2, rc) for k in ('pinv', 'pI') for x, d in ((_R, _D3), (_R, _N3), (_I, _D2)) for c in ('array', 'umatrix', 'npmatrix', 'list')
         for rc in (None, 1e-10)] + \
        [('pinv', [[1., 2.], [2., 4.]], _D2, [.1, .2, .3], c, 1, 1e-10) for c in ('array', 'umatrix')] + \
        [('pinv', x, d, [.1, .2, .3], c, 1, rc) for x, d in (([[1., 0.], [0., 1e-3]], _D2), ([[1., .5, 2.], [1., .5001, 2.]], _D3), ([[3., 1.], [1., 1.]], _D2))
         for c in ('array', 'umatrix') for rc in (1e-2, 1e-6, .3)] + \
        [('pinv', [[1., 2., 3.], [2., 4., 6.]], _D3, [.1, .2, .3], 'array', 1, 1e-10), ('inv', [[4.]], [[[(0, 1.)]]], [.1], 'array', 1)] + \
        [(k, _I, d, [.1, .2, .0], c, 2, x) for k in FUNCS for d in (_D2, _N2) for c in ('array', 'umatrix') for x in EXTRA[k]]


def gen(r):
    kind = r.choice(['inv', 'inv', 'I', 'pinv', 'pinv', 'pI'] + list(FUNCS))
    if kind in ('inv', 'I', 'f_inv'):
        m = n = r.randint(1, 4)
    else:
        m, n = r.randint(1, 4), r.randint(1, 4)
        if kind == 'pI' and m == n:
            n += 1
    if kind in ('pinv', 'pI') and r.random() < .4:
        k = r.randint(1, min(m, n))
        F = numpy.array([[float(r.randint(-4, 4)) for _ in range(k)] for _ in range(m)])
        G = numpy.array([[float(r.randint(-4, 4)) for _ in range(n)] for _ in range(k)])
        vals = F.dot(G).tolist()
    else:
        vals = [[r.choice([nums.fl(r, -1, 1), r.uniform(-3, 3), float(r.randint(-5, 5))]) for _ in range(n)] for _ in range(m)]
    nv = r.randint(1, 4)
    pz = r.choice([.1, .4, .4, 1.])
    deps = [[[] if r.random() < pz else [(r.randrange(nv), nums.fl(r, -1, 1, zero=False)) for _ in range(r.randint(1, 3))] for _ in range(n)] for _ in range(m)]
    case = (kind, vals, deps, [nums.sd(r, .2) for _ in range(nv)], r.choice(['array', 'array', 'umatrix', 'npmatrix', 'list']), 0)
    if kind == 'I' or kind == 'pI':
        case = case[:4] + ('umatrix', 0)
    if kind in ('pinv', 'pI'):
        case += (r.choice([None, None, 1e-10, 1e-8, 1e-12, 1e-3, .05]),)
    if kind in FUNCS:
        case = case[:4] + (r.choice(['array', 'umatrix']) if kind != 'f_inv' else 'array', 0, r.choice(EXTRA[kind]))
    return case
