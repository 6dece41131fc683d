# -*- coding: utf-8 -*-
"""C20: contracts of the inverse, of the pseudo-inverse and of wrapped array functions, over the contracts of numpy.linalg.inv
and pinv.  Arbitrary elements (each depends on the listed variables with arbitrary coefficients); listed shapes."""
from .common import *
from .. import arrays
import numpy
from uncertainties import unumpy
from uncertainties.unumpy import ulinalg
import uncertainties.unumpy.core as ucore
from .c19 import sarr, nest, snap, size, attr


def element(E, name, vs):
    """Quantity with arbitrary derivatives with respect to the variables; float if there is none."""
    if vs is None:
        return E.real(name)
    lc = object.__new__(core.LinearCombination)
    d = {}
    for i, v in vs:
        d[v] = E.real('d%s/dv%d' % (name, i))
    object.__setattr__(lc, 'linear_combo', d)
    x = object.__new__(core.AffineScalarFunc)
    object.__setattr__(x, '_nominal_value', E.real(name))
    object.__setattr__(x, '_linear_part', lc)
    E.keep.append((lc, d, x))
    return x


def nominal(x):
    return object.__getattribute__(x, '_nominal_value') if isinstance(x, core.AffineScalarFunc) else x


def deriv(E, x, v):
    """Derivative of an element of a result or of an argument (term)."""
    if not isinstance(x, core.AffineScalarFunc):
        return rv(0)
    c = coll.coefs(E, object.__getattribute__(x, '_linear_part')) if False else E.getattr(x, 'derivatives')
    for k, w in c.items():
        if k is v:
            return E.term(w)
    return rv(0)


def mul(A, B):
    return arrays.mmul(A, B)


def add(*Ms):
    return [[sum((M[i][j] for M in Ms[1:]), Ms[0][i][j]) for j in range(len(Ms[0][0]))] for i in range(len(Ms[0]))]


def neg(A):
    return [[-x for x in r] for r in A]


def tr(A):
    return [list(c) for c in zip(*A)]


def eye(n):
    return [[rv(int(i == j)) for j in range(n)] for i in range(n)]


def terms(E, a):
    return [[E.term(x) for x in r] for r in numpy.asarray(a)]


def expected(kind, A, B, dA):
    m, n = len(A), len(A[0])
    t = neg(mul(mul(B, dA), B))
    if kind == 'inv':
        return t
    At = tr(dA)
    return add(t, mul(mul(mul(B, tr(B)), At), add(eye(m), neg(mul(A, B)))), mul(mul(add(eye(n), neg(mul(B, A))), At), mul(tr(B), B)))


DEPS = {   # which variables each element (in order) depends on; '' : a plain float
    'one': ['0'], 'two': ['01', '1'], 'mixed': ['0', '', '01', '1'], 'some': ['', '0', ''], 'none': [''], 'three': ['012']}


def build(E, shape, deps, vs):
    pat = DEPS[deps]
    return [element(E, 'a%d' % i, [(int(c), vs[int(c)]) for c in pat[i % len(pat)]] if pat[i % len(pat)] else None) for i in range(size(shape))]


def inverse(kind, how, shape, deps, cont, rcond=None):
    def h(E):
        coll.setup(E)
        arrays.install(E)
        vs = [coll.new_variable(E, 'v%d' % i) for i in range(3)]
        xs = build(E, shape, deps, vs)
        cls = {'array': numpy.ndarray, 'umatrix': unumpy.matrix, 'npmatrix': numpy.matrix}.get(cont)
        arg = nest(xs, shape) if cont == 'list' else sarr(xs, shape, cls, 'O')
        s = snap(arg)
        rc = None
        if how == '.I':
            r = attr(E, arg, 'I')
        elif how == 'getI':
            r = run(E, E.getattr(arg, 'getI'))
        elif rcond is None:
            r = run(E, getattr(ulinalg, kind), arg)
        else:
            rc = E.real('rcond')
            r = run(E, getattr(ulinalg, kind), arg, rc) if rcond == 'pos' else run(E, getattr(ulinalg, kind), arg, rcond=rc)
        E.ensure('argument not modified', snap(arg) == s)
        if r[0] == 'exc' and E.linalg == [] and isinstance(r[1], numpy.linalg.LinAlgError) and kind == 'inv':
            return     # singular matrix
        if not E.ensure('no exception', r[0] == 'ok', show(r)):
            return
        R = r[1]
        if not E.ensure('one call of numpy.linalg.%s' % kind, len(E.linalg) == 1 and E.linalg[0][0] == kind, show([l[0] for l in E.linalg])):
            return
        _, A0, B0, extra = E.linalg[0]
        noms = [nominal(x) for x in xs]
        E.ensure('of the nominal values', A0.a.shape == shape and all(isinstance(p, SFloat) and p.t.eq(q.t) for p, q in zip(A0.a.flat, noms)), show(A0))
        if kind == 'pinv':
            got = (extra[0] + tuple(v for _, v in extra[1]))
            default = ucore.pinv_default
            if rc is None:
                import inspect
                d = inspect.signature(numpy.linalg.pinv).parameters['rcond'].default
                E.ensure('default rcond', got in ((), (d,)), show(got))
            else:
                E.ensure('the given rcond', len(got) == 1 and got[0] is rc, show(got))
        shp = shape[::-1]
        ismat = cont in ('umatrix', 'npmatrix')
        used = any(isinstance(x, core.AffineScalarFunc) for x in xs)
        if not used:
            E.ensure('the plain NumPy result', isinstance(R, arrays.SArr) and R.kind == 'f' and R.a.shape == shp and isinstance(R.a, numpy.matrix) == ismat
                     and all(p is q for p, q in zip(R.a.flat, B0.a.flat)), show(R))
            E.cover('value')
            return
        if not E.ensure('an array of quantities', isinstance(R, arrays.SArr) and R.a.shape == shp and type(R.a) is (unumpy.matrix if ismat else numpy.ndarray)
                        and all(type(x) is core.AffineScalarFunc for x in R.a.flat), show(R)):
            return
        got = numpy.asarray(R.a)
        for p in numpy.ndindex(*shp):
            same_num(E, 'nominal value %s' % (p,), nominal(got[p]), numpy.asarray(B0.a)[p])
            ks = list(E.getattr(got[p], 'derivatives'))
            E.ensure('variables %s' % (p,), all(any(k is v for v in vs) for k in ks))
        A, B = [[E.term(x) for x in r] for r in nest(noms, shape)], terms(E, B0.a)
        ds = nest(xs, shape)
        for i, v in enumerate(vs):
            dA = [[deriv(E, x, v) for x in r] for r in ds]
            W = expected(kind, A, B, dA)
            for p in numpy.ndindex(*shp):
                E.ensure('derivative of element %s with respect to variable %d' % (p, i), deriv(E, got[p], v) == W[p[0]][p[1]])
        E.cover('value')
    return h


def wrapped(shape, deps, extra):
    """wrap_array_func(): exact derivatives of a linear array function."""
    def h(E):
        coll.setup(E)
        arrays.install(E)
        vs = [coll.new_variable(E, 'v%d' % i) for i in range(3)]
        xs = build(E, shape, deps, vs)
        arg = sarr(xs, shape, numpy.ndarray, 'O')
        K = [[E.real('k%d%d' % (i, j)) for j in range(shape[0])] for i in range(2)]
        Ka = sarr([x for r in K for x in r], (2, shape[0]))
        opts = (Opaque('extra'),), {'option': Opaque('option')}
        seen = []

        def f(E, args, kw):
            a = args[0]
            if not isinstance(a, arrays.SArr) or a.kind != 'f' or a.a.shape != shape:
                raise TypeError('the function needs an array of floats: %r' % (a,))
            seen.append((args[1:], kw))
            return arrays.dot(E, Ka, a)
        F = SFunc('arrayfunc', f)
        g = run(E, ucore.wrap_array_func, F)
        if not E.ensure('function wrapped', g[0] == 'ok', show(g)):
            return
        a, k = opts if extra else ((), {})
        s = snap(arg)
        r = run(E, g[1], arg, *a, **k)
        E.ensure('argument not modified', snap(arg) == s)
        if not E.ensure('no exception', r[0] == 'ok', show(r)):
            return
        E.ensure('other arguments passed unchanged', len(seen) > 0 and all(len(p) == len(a) and all(x is y for x, y in zip(p, a)) and set(q) == set(k)
                                                             and all(q[n] is k[n] for n in k) for p, q in seen))
        R = r[1]
        noms = nest([E.term(nominal(x)) for x in xs], shape)
        if len(shape) == 1:
            noms = [[x] for x in noms]
        kt = [[E.term(x) for x in r] for r in K]
        W = mul(kt, noms)
        flatW = [x for r in W for x in r]
        shp = (2,) + shape[1:]
        used = any(isinstance(x, core.AffineScalarFunc) for x in xs)
        if not E.ensure('an array of results', isinstance(R, arrays.SArr) and R.a.shape == shp and all((type(x) is core.AffineScalarFunc) == used for x in R.a.flat), show(R)):
            return
        for i, (x, w) in enumerate(zip(R.a.flat, flatW)):
            E.ensure('value %d' % i, E.term(nominal(x)) == w)
        for j, v in enumerate(vs):
            dA = nest([deriv(E, x, v) for x in xs], shape)
            if len(shape) == 1:
                dA = [[x] for x in dA]
            flatD = [x for r in mul(kt, dA) for x in r]
            for i, (x, w) in enumerate(zip(R.a.flat, flatD)):
                E.ensure('derivative of element %d with respect to variable %d' % (i, j), deriv(E, x, v) == w)
        E.cover('value')
    return h


_o = {'covers': ('value',), 'FEAS_TIMEOUT': 150}
UNITS = {}
for _d in ('one', 'two', 'mixed', 'some', 'none', 'three'):
    for _c in ('array', 'umatrix', 'npmatrix', 'list'):
        for _n in (1, 2):
            if _n == 1 and _d in ('mixed', 'some') or _n == 2 and _d == 'three':
                continue
            UNITS['inv: %dx%d %s, elements %s' % (_n, _n, _c, _d)] = (inverse('inv', 'ulinalg', (_n, _n), _d, _c), _o)
            if _c == 'umatrix':
                UNITS['.I: %dx%d, elements %s' % (_n, _n, _d)] = (inverse('inv', '.I', (_n, _n), _d, _c), _o)
                UNITS['getI(): %dx%d, elements %s' % (_n, _n, _d)] = (inverse('inv', 'getI', (_n, _n), _d, _c), _o)
UNITS['inv: 3x3 array, elements some'] = (inverse('inv', 'ulinalg', (3, 3), 'some', 'array'), dict(_o, thorough=True))
for _sh in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)):
    for _d in ('one', 'mixed', 'none', 'some'):
        for _c in ('array', 'umatrix', 'list', 'npmatrix'):
            if _sh in ((2, 3), (3, 2)) and (_d == 'mixed' or _c not in ('array', 'umatrix')):
                continue
            UNITS['pinv: %dx%d %s, elements %s' % (_sh + (_c, _d))] = (inverse('pinv', 'ulinalg', _sh, _d, _c), dict(_o, thorough=_sh == (2, 2) and _d == 'mixed'))
        if _sh[0] != _sh[1] and _sh[0] + _sh[1] < 5:
            UNITS['.I: %dx%d, elements %s' % (_sh + (_d,))] = (inverse('pinv', '.I', _sh, _d, 'umatrix'), _o)
        UNITS['pinv: %dx%d, elements %s, rcond' % (_sh + (_d,))] = (inverse('pinv', 'ulinalg', _sh, _d, 'array', 'pos' if _d == 'one' else 'key'), dict(_o, thorough=sum(_sh) == 5 or _sh == (2, 2) and _d == 'mixed'))
for _sh in ((1,), (2,), (2, 2)):
    for _d in ('one', 'two', 'mixed', 'none'):
        for _e in (False, True):
            UNITS['wrap_array_func: shape %s, elements %s%s' % (_sh, _d, ', extra arguments' if _e else '')] = (wrapped(_sh, _d, _e), dict(_o, thorough=_sh == (2, 2) and (_e or _d == 'two')))
