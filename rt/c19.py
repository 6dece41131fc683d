# -*- coding: utf-8 -*-
"""C19: array functions, element by element."""
from .base import *
from . import nums
import numpy
import uncertainties
from uncertainties import ufloat, UFloat, umath, umath_core, unumpy
from uncertainties.core import Variable

# Function names, independently of the package: unumpy name -> math name
ONE = ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atanh', 'ceil', 'cos', 'cosh', 'degrees', 'erf', 'erfc', 'exp', 'expm1', 'fabs', 'floor', 'gamma',
       'isinf', 'isnan', 'lgamma', 'log', 'log10', 'log1p', 'radians', 'sin', 'sinh', 'sqrt', 'tan', 'tanh', 'trunc']
TWO = ['atan2', 'copysign', 'fmod', 'hypot', 'pow']
ARC = {'acos': 'arccos', 'acosh': 'arccosh', 'asin': 'arcsin', 'asinh': 'arcsinh', 'atan': 'arctan', 'atan2': 'arctan2', 'atanh': 'arctanh'}
CST = {'ceil', 'floor', 'trunc', 'isinf', 'isnan'}
SHAPES = [(1,), (2,), (3,), (2, 2), (1, 3), (3, 1), (2, 1, 2), (), (1, 1)]


def arr(vals, shape):
    a = numpy.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    return a.reshape(shape)


def size(shape):
    n = 1
    for k in shape:
        n *= k
    return n


def flat(a):
    return list(numpy.asarray(a).ravel()) if not isinstance(a, numpy.matrix) else [a[i, j] for i in range(a.shape[0]) for j in range(a.shape[1])]


def eqnum(a, b):
    """Same number with uncertainty: value and derivatives."""
    if isinstance(b, UFloat):
        if not isinstance(a, UFloat) or not same(a.nominal_value, b.nominal_value):
            return False
        da, db = a.derivatives, b.derivatives
        return set(map(id, da)) == set(map(id, db)) and all(same(da[v], db[v]) for v in da)
    return not isinstance(a, UFloat) and same(float(a), float(b))


def outcome(f):
    try:
        return 'value', f()
    except Exception as e:
        return 'exc', e


def mixed(items, pool):
    out = []
    for it in items:
        k = it[0]
        if k == 'v':
            out.append(ufloat(it[1], it[2]))
        elif k == 'k':
            out.append(it[1])
        elif k == 'c':
            a, b = pool[it[1] % len(pool)], pool[it[2] % len(pool)]
            out.append(a + 2 * b if it[3] else a * b)
        else:
            out.append(pool[it[1] % len(pool)])
    return out


def near(a, b):
    """Same number with uncertainty, up to rounding (another order of evaluation)."""
    if not isinstance(b, UFloat):
        return not isinstance(a, UFloat) and close(float(a), float(b), 1e-12, 1e-12)
    if not isinstance(a, UFloat) or not close(a.nominal_value, b.nominal_value, 1e-12, 1e-12):
        return False
    da, db = a.derivatives, b.derivatives
    return all(close(da.get(v, 0.), db.get(v, 0.), 1e-12, 1e-12) for v in set(da) | set(db))


def check_ops(case):
    import operator
    if case[0] == 'op':
        _, op, shapes, items, pool, kinds = case
        fop = getattr(operator, op)
    else:
        _, shapes, items, pool, kinds = case
        fop = operator.mul
    pool = [ufloat(a, b) for a, b in pool]
    args, mats = [], []
    for i in range(2):
        sh = shapes[i]
        n = size(sh or ())
        vals = mixed((items[i] * n)[:n], pool)
        if kinds[i].startswith('plain'):
            vals = [v.nominal_value if isinstance(v, UFloat) else v for v in vals]
        m = arr(vals, sh or ())
        mats.append(m)
        if sh is None:
            args.append(vals[0])
        elif 'list' in kinds[i]:
            args.append(m.tolist())
        elif 'npmatrix' in kinds[i]:
            args.append(numpy.asmatrix(m))
        elif 'matrix' in kinds[i]:
            args.append(m.view(unumpy.matrix))
        else:
            args.append(m)
    if case[0] == 'op':
        try:
            want = numpy.empty(numpy.broadcast_shapes(*[m.shape for m in mats]), dtype=object)
        except ValueError:
            raise Skip
        for p in numpy.ndindex(*want.shape):
            x, y = [numpy.broadcast_to(m, want.shape)[p] for m in mats]
            t, want[p] = outcome(lambda: fop(x, y))
            if t == 'exc' or isinstance(want[p], complex):
                raise Skip
    else:
        a, b = mats
        if shapes[0] is None or shapes[1] is None:
            want = numpy.empty((b if shapes[0] is None else a).shape, dtype=object)
            for p in numpy.ndindex(*want.shape):
                want[p] = (a[()] * b[p]) if shapes[0] is None else a[p] * b[()]
        else:
            want = numpy.empty((a.shape[0], b.shape[1]), dtype=object)
            for i, j in numpy.ndindex(*want.shape):
                want[i, j] = sum((a[i, q] * b[q, j] for q in range(1, a.shape[1])), a[i, 0] * b[0, j])
    res = fop(*args)
    if case[0] == 'prod' and not isinstance(res, numpy.matrix):
        return 'product of type %s' % type(res).__name__
    if not isinstance(res, numpy.ndarray) or res.shape != want.shape:
        return 'shape %r instead of %r' % (getattr(res, 'shape', None), want.shape)
    for p in numpy.ndindex(*want.shape):
        if not near(res[p], want[p]):
            return 'element %r: %r instead of %r (derivatives %r)' % (p, res[p], want[p], dict(getattr(res[p], 'derivatives', {})))


def check(case):
    k = case[0]
    if k == 'uarray':
        _, shape, ns, ss, how = case
        n = size(shape)
        ns, ss = (ns * n)[:n], (ss * n)[:n]
        N, S = numpy.array(ns).reshape(shape), numpy.array(ss).reshape(shape)
        if how == 'umatrix':
            if len(shape) != 2:
                raise Skip
            a = unumpy.umatrix(N.tolist(), S.tolist()) if n % 2 else unumpy.umatrix(N, S)
            if not isinstance(a, unumpy.matrix) or not isinstance(a.nominal_values, numpy.matrix) or not isinstance(a.std_devs, numpy.matrix):
                return 'umatrix() gives %s' % type(a)
            nv, sv = a.nominal_values, a.std_devs
            if type(unumpy.nominal_values(a)) is not numpy.matrix:
                return 'nominal_values() of a matrix: %r' % type(unumpy.nominal_values(a))
        elif how == 'old':
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                a = unumpy.uarray((N, S))
            if not w:
                return 'no warning'
            nv, sv = unumpy.nominal_values(a), unumpy.std_devs(a)
        else:
            a = unumpy.uarray(N.tolist(), S.tolist()) if how == 'list' else unumpy.uarray(N, S)
            nv, sv = unumpy.nominal_values(a), unumpy.std_devs(a)
        if a.shape != tuple(shape) or nv.shape != tuple(shape) or sv.shape != tuple(shape) or nv.dtype != float or sv.dtype != float:
            return 'shapes %r, %r, %r, dtypes %r %r' % (a.shape, nv.shape, sv.shape, nv.dtype, sv.dtype)
        if how != 'umatrix' and (isinstance(nv, numpy.matrix) or isinstance(sv, numpy.matrix)):
            return 'array gives matrix'
        es = flat(a)
        for e, x, s, y, z in zip(es, ns, ss, flat(nv), flat(sv)):
            if not isinstance(e, Variable) or not same(e.nominal_value, float(x)) or not same(float(e.std_dev), float(s)) or e.tag is not None:
                return 'element %r instead of %r+/-%r' % (e, x, s)
            if not same(float(y), float(x)) or not same(float(z), float(s)):
                return 'nominal_values/std_devs: %r, %r instead of %r, %r' % (y, z, x, s)
            if list(e.derivatives) != [e]:
                return 'not independent'
        if len({id(e) for e in es}) != n:
            return 'elements are not distinct variables'
        return
    if k == 'values':
        _, shape, items, pool, kind = case
        n = size(shape)
        vals = mixed((items * n)[:n], [ufloat(a, b) for a, b in pool])
        a = arr(vals, shape)
        if kind == 'matrix':
            if len(shape) != 2:
                raise Skip
            a = a.view(unumpy.matrix)
        elif kind == 'npmatrix':
            if len(shape) != 2:
                raise Skip
            a = numpy.asmatrix(a)
        elif kind == 'float':
            vals = [float(v.nominal_value) if isinstance(v, UFloat) else float(v) for v in vals]
            a = numpy.array(vals).reshape(shape)
        nv, sv = unumpy.nominal_values(a), unumpy.std_devs(a)
        if nv.shape != tuple(shape) or sv.shape != tuple(shape) or nv.dtype != float or sv.dtype != float:
            return 'nominal_values/std_devs shape or dtype: %r %r' % (nv, sv)
        if (kind in ('matrix', 'npmatrix')) != isinstance(nv, numpy.matrix) or type(nv) is unumpy.matrix:
            return 'type %r' % type(nv)
        for v, x, s in zip(vals, flat(nv), flat(sv)):
            ev, es = (v.nominal_value, float(v.std_dev)) if isinstance(v, UFloat) else (float(v), 0.)
            if not same(float(x), ev) or not same(float(s), es):
                return '%r gives %r, %r' % (v, x, s)
        for v, x in zip(vals, flat(a)):
            if x is not v and not (kind == 'float' and x == v or x != x):
                return 'the array was modified'
        return
    if k in ('op', 'prod'):
        return check_ops(case)
    _, f, shape, items, pool, kind, shape2, items2 = case
    n = size(shape)
    pool = [ufloat(a, b) for a, b in pool]
    vals = mixed((items * n)[:n], pool)
    a = arr(vals, shape)
    if kind == 'matrix':
        if len(shape) != 2:
            raise Skip
        a = a.view(unumpy.matrix)
    name = ARC.get(f, f)
    fun = getattr(unumpy, name)
    ref = getattr(umath, f)
    if f in TWO:
        n2 = size(shape2)
        vals2 = mixed((items2 * n2)[:n2], pool)
        if shape2 == 'scalar':
            pass
        b = arr(vals2, shape2)
        try:
            bc = numpy.broadcast(a, b)
        except ValueError:
            raise Skip
        if not bc.shape and not isinstance(a[()], object):
            raise Skip
        exp = []
        for x, y in bc:
            exp.append(outcome(lambda: ref(x, y)))
        eshape = bc.shape
        got = outcome(lambda: fun(a, b))
    else:
        exp = [outcome(lambda: ref(x)) for x in vals]
        eshape = tuple(shape)
        got = outcome(lambda: fun(a))
    ex = [e for t, e in exp if t == 'exc']
    if ex:
        if got[0] != 'exc' or not isinstance(got[1], (type(ex[0]),) + tuple(type(e) for e in ex)):
            return '%s: %r instead of an exception %r' % (name, got, ex[0])
        return
    if got[0] == 'exc':
        if f in CST and isinstance(got[1], OverflowError) and any(abs(e) >= 2 ** 63 for t, e in exp):
            return        # plain integers beyond the range of NumPy integers
        return '%s raises %r, the scalar function does not' % (name, got[1])
    res = got[1]
    if eshape == ():
        els = [res[()] if isinstance(res, numpy.ndarray) else res]
    else:
        if not isinstance(res, numpy.ndarray) or res.shape != eshape:
            return '%s: shape %r instead of %r' % (name, getattr(res, 'shape', None), eshape)
        if kind == 'matrix' and f not in TWO and f not in CST and not isinstance(res, numpy.matrix):
            return '%s of a matrix is %s' % (name, type(res))
        els = flat(res)
    for g, (t, e) in zip(els, exp):
        if f in CST:
            if isinstance(g, UFloat) or not same(float(g), float(e)):
                return '%s: element %r instead of %r' % (name, g, e)
        elif not eqnum(g, e):
            return '%s: element %r instead of %r' % (name, g, e)
    if f in ('isinf', 'isnan') and isinstance(res, numpy.ndarray) and res.dtype != bool:
        return '%s gives an array of %s' % (name, res.dtype)
    if f in CST and isinstance(res, numpy.ndarray) and res.dtype == object and not any(isinstance(e, int) and abs(e) >= 2 ** 63 for t, e in exp):
        return '%s gives an object array' % name
    for v, x in zip(vals, flat(a)):
        if x is not v:
            return 'the array was modified'


def fitems(f):
    lo = {'acosh': [1.5, 2.], 'gamma': [.5, 2.5], 'lgamma': [.5, 3.5], 'log': [.5, 2.], 'log10': [.5, 2.], 'sqrt': [.5, 2.], 'log1p': [.5, 2.], 'pow': [.5, 2.],
          'fmod': [7.5, 2.25]}
    a = lo.get(f, [.25, -.5])
    return [('v', a[0], .1), ('p', 0), ('k', a[1]), ('v', a[1], 0.)], [(a[0], .5), (a[1], .2)]


FIXED = [('f', f, sh, fitems(f)[0], fitems(f)[1], kind, (1,), [('v', 1.5, .1)]) for f in ONE + TWO for sh, kind in (((4,), 'array'), ((2, 2), 'matrix'), ((), 'array'))] + \
        [('f', f, (2, 2), fitems(f)[0], fitems(f)[1], 'array', s2, [('k', 2.), ('v', 1.5, .1)]) for f in TWO for s2 in ((2,), (2, 1), (), (2, 2))] + \
        [('uarray', sh, [1., -2., 3.5, nan, 4], [.1, 0., inf, 2, nan], how) for sh in SHAPES for how in ('array', 'list', 'old', 'umatrix') if not (how == 'old' and sh == ())] + \
        [('values', sh, [('v', 1., .1), ('k', 3), ('k', 2.5), ('c', 0, 1, 0), ('k', nan), ('p', 0)], [(1., .2), (2., 0.)], kind) for sh in SHAPES
         for kind in ('array', 'matrix', 'npmatrix', 'float')]


_IT = [('v', 1.5, .1), ('k', 2), ('p', 0), ('k', -.5), ('c', 0, 1, 1)]
FIXED += [('op', op, sh, (_IT, _IT[2:] + _IT), [(1., .2), (2., .3)], kd) for op in ('add', 'sub', 'mul', 'truediv', 'pow', 'mod', 'floordiv')
          for sh in (((3,), None), (None, (3,)), ((2, 2), (2, 2)), ((2, 1), (3,))) for kd in (('', ''), ('plain', ''), ('', 'plain'))]
FIXED += [('prod', sh, (_IT, _IT[3:] + _IT), [(1., .2), (2., .3)], kd) for kd, shs in (
    (('matrix', 'matrix'), (((2, 2), (2, 2)), ((1, 3), (3, 2)))), (('list', 'matrix'), (((2, 2), (2, 2)), ((1, 2), (2, 3)))),
    (('plainlist', 'matrix'), (((2, 2), (2, 2)),)), (('matrix', 'list'), (((2, 2), (2, 2)),)), (('array', 'matrix'), (((2, 2), (2, 2)), ((3, 2), (2, 1)))),
    (('matrix', 'array'), (((2, 2), (2, 2)),)), (('npmatrix', 'matrix'), (((2, 2), (2, 2)),)), (('matrix', 'npmatrix'), (((2, 2), (2, 2)),)),
    (('plain', 'matrix'), ((None, (2, 2)),)), (('', 'matrix'), ((None, (2, 2)),)), (('matrix', 'plain'), (((2, 2), None),))) for sh in shs]


def gen(r):
    if r.random() < .12:
        pool = [(r.uniform(.05, .9), nums.sd(r)) for _ in range(r.randint(1, 3))]
        it = lambda: r.choice([('v', r.uniform(-3, 3), nums.sd(r)), ('k', r.choice([r.uniform(-3, 3), r.randint(-5, 5)])), ('p', r.randrange(4)),
                               ('c', r.randrange(4), r.randrange(4), r.randrange(2))])
        items = ([it() for _ in range(4)], [it() for _ in range(4)])
        if r.random() < .5:
            n = r.randint(1, 4)
            sh = r.choice([((n,), None), (None, (n,)), ((n,), (n,)), ((n, 1), (2,)), ((2, n), (n,))])
            return ('op', r.choice(['add', 'sub', 'mul', 'truediv', 'pow', 'mod', 'floordiv']), sh, items, pool, r.choice([('', ''), ('plain', ''), ('', 'plain')]))
        a, b, c = r.randint(1, 3), r.randint(1, 3), r.randint(1, 3)
        kd = r.choice([('matrix', 'matrix'), ('list', 'matrix'), ('matrix', 'list'), ('array', 'matrix'), ('matrix', 'array'), ('npmatrix', 'matrix'),
                       ('plainlist', 'matrix'), ('', 'matrix'), ('plain', 'matrix'), ('matrix', 'plain')])
        return ('prod', (None if kd[0] in ('', 'plain') else (a, b), None if kd[1] == 'plain' else (b, c)), items, pool, kd)
    shape = r.choice(SHAPES + [(r.randint(1, 4), r.randint(1, 3)), (r.randint(1, 6),)])

    def item(sc=None):
        q = r.random()
        v = r.choice([nums.fl(r, -1, 1), r.uniform(0, 1), r.uniform(1, 3), r.uniform(-1, 1)]) if sc is None else sc
        if r.random() < .02:
            v = r.choice([nan, inf, -inf])
        if q < .45:
            return ('v', v, nums.sd(r, .2, .03))
        if q < .65:
            return ('k', r.choice([v, int(v) if math.isfinite(v) else v, True]))
        if q < .8:
            return ('p', r.randrange(4))
        return ('c', r.randrange(4), r.randrange(4), r.randrange(2))
    n = size(shape)
    items = [item() for _ in range(n)]
    pool = [(r.uniform(.05, .9), nums.sd(r)) for _ in range(r.randint(1, 3))]
    k = r.random()
    if k < .15:
        return ('uarray', shape if shape else (2,), [nums.anyf(r) for _ in range(n)], [nums.sd(r, .2, .1) for _ in range(n)], r.choice(['array', 'list', 'old', 'umatrix']))
    if k < .35:
        return ('values', shape, items, pool, r.choice(['array', 'array', 'matrix', 'npmatrix', 'float']))
    f = r.choice(ONE + TWO)
    shape2 = r.choice([shape, (), (1,), tuple(1 if r.random() < .5 else q for q in shape)])
    if r.random() < .6:
        lo, hi = {'acosh': (1, 3), 'gamma': (.1, 5), 'lgamma': (.1, 5), 'log': (.01, 5), 'log10': (.01, 5), 'sqrt': (.01, 5), 'pow': (.1, 3), 'atanh': (-.9, .9),
                  'asin': (-.9, .9), 'acos': (-.9, .9)}.get(f, (-3, 3))
        items = [(i[0], r.uniform(lo, hi)) + i[2:] if i[0] in 'vk' else i for i in items]
    return ('f', f, shape, items, pool, r.choice(['array', 'array', 'matrix']), shape2, [item() for _ in range(max(1, size(shape2)))])
