# -*- coding: utf-8 -*-
"""C19: contracts of the array functions, element by element.  numpy.vectorize is interpreted from its own source; the functions
applied to the elements are used through their contracts (C02, C04).  The elements are arbitrary; the shapes are listed."""
from .common import *
from .. import arrays
import warnings
import numpy
import uncertainties
from uncertainties import unumpy, umath_core
import uncertainties.unumpy.core as ucore

ONE = ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atanh', 'cos', 'cosh', 'degrees', 'erf', 'erfc', 'exp', 'expm1', 'fabs', 'gamma',
       'lgamma', 'log', 'log10', 'log1p', 'radians', 'sin', 'sinh', 'sqrt', 'tan', 'tanh']
TWO = ['atan2', 'copysign', 'fmod', 'hypot', 'pow', 'log']
CST = {'ceil': 'i', 'floor': 'i', 'trunc': 'i', 'isinf': 'b', 'isnan': 'b'}
ARC = {'acos': 'arccos', 'acosh': 'arccosh', 'asin': 'arcsin', 'asinh': 'arcsinh', 'atan': 'arctan', 'atan2': 'arctan2', 'atanh': 'arctanh'}
P = progs
ops.INTERPRETED_FILES.add(ucore.__file__)


def size(shape):
    if shape == 'scalar':
        return 1
    n = 1
    for k in shape:
        n *= k
    return n


def elements(E, name, kinds, n):
    return [operand(E, '%s%d' % (name, i), kinds[i % len(kinds)])[0] for i in range(n)]


def sarr(xs, shape, cls=numpy.ndarray, kind=None):
    return arrays.build(cls, shape, xs, kind or arrays.join([arrays.kind_of(x) for x in xs]))


def nest(xs, shape):
    if not shape:
        return xs[0]
    n = len(xs) // shape[0] if shape[0] else 0
    return [nest(xs[i * n:(i + 1) * n], shape[1:]) for i in range(shape[0])]


def snap(x):
    if isinstance(x, arrays.SArr):
        return x.snapshot()
    if isinstance(x, (list, tuple)):
        return [snap(y) for y in x]
    return id(x)


def is_array_of(E, label, r, shape, kind, cls):
    return E.ensure(label, isinstance(r, arrays.SArr) and r.a.shape == shape and r.kind == kind and type(r.a) is cls, show(r))


def uarray(how, shape, nk, sk):
    def h(E):
        coll.setup(E)
        arrays.install(E)
        n = size(shape)
        noms, stds = elements(E, 'x', nk, n), elements(E, 's', sk, 1 if how == 'scalar std' else n)
        for s in stds:
            E.fact(E.term(s) >= 0)
        wrap = (lambda xs: nest(xs, shape)) if how.endswith('list') else (lambda xs: sarr(xs, shape))
        args = [wrap(noms), stds[0] if how == 'scalar std' else wrap(stds)]
        snaps = [snap(a) for a in args]
        f = unumpy.umatrix if how.startswith('umatrix') else unumpy.uarray
        if 'old' in how:
            w = len(E.warned)
            r = run(E, f, tuple(args))
            E.ensure('a deprecation warning', len(E.warned) > w)
        else:
            r = run(E, f, *args)
        if not E.ensure('no exception', r[0] == 'ok', show(r)):
            return
        shp = shape if not f is unumpy.umatrix or len(shape) == 2 else (1,) * (2 - len(shape)) + shape
        if is_array_of(E, 'an array of objects of the same shape', r[1], shp, 'O', unumpy.matrix if f is unumpy.umatrix else numpy.ndarray):
            es = list(r[1].a.flat)
            E.ensure('independent variables', all(type(e) is core.Variable for e in es) and len(set(map(id, es))) == n, show(es))
            for i, e in enumerate(es):
                same_num(E, 'nominal value %d' % i, object.__getattribute__(e, '_nominal_value'), noms[i])
                same_num(E, 'standard deviation %d' % i, object.__getattribute__(e, '_std_dev'), stds[0 if how == 'scalar std' else i])
                E.ensure('tag %d' % i, object.__getattribute__(e, 'tag') is None)
                E.ensure('linear part %d' % i, list(object.__getattribute__(e, '_linear_part').linear_combo.items()) == [(e, 1.)] if False else
                         own(e))
            E.cover('value')
        E.ensure('arguments not modified', [snap(a) for a in args] == snaps)
    return h


def own(e):
    d = object.__getattribute__(object.__getattribute__(e, '_linear_part'), 'linear_combo')
    return isinstance(d, dict) and len(d) == 1 and list(d)[0] is e and list(d.values())[0] == 1


def values(which, kinds, shape, cls):
    """nominal_values(), std_devs() and the attributes of matrices."""
    def h(E):
        coll.setup(E)
        arrays.install(E)
        std_contract(E)
        xs = elements(E, 'x', kinds, size(shape))
        a = sarr(xs, shape, cls, 'O')
        fr = Frame(E, *xs)
        s = snap(a)
        if which.startswith('.'):
            r = run(E, E.getattr, a, which[1:]) if False else attr(E, a, which[1:])
        else:
            r = run(E, getattr(unumpy, which), a)
        if not E.ensure('no exception', r[0] == 'ok', show(r)):
            return
        r = r[1]
        if 'std_devs' in which and which.startswith('.'):
            E.ensure('a matrix', isinstance(r, arrays.SArr) and issubclass(type(r.a), numpy.matrix), show(r))
            # it can still be called
            w = len(E.warned)
            q = run(E, r)
            E.ensure('callable, with a warning', q[0] == 'ok' and len(E.warned) > w and q[1] is r, show(q))
            rcls = type(r.a)
        else:
            rcls = numpy.matrix if issubclass(cls, numpy.matrix) else cls
        if is_array_of(E, 'an array of floats of the same shape', r, shape, 'f', rcls):
            for i, (x, y) in enumerate(zip(xs, r.a.flat)):
                if 'nominal' in which:
                    same_num(E, 'nominal value %d' % i, y, object.__getattribute__(x, '_nominal_value') if isinstance(x, core.AffineScalarFunc) else x)
                elif isinstance(x, core.Variable):
                    same_num(E, 'standard deviation %d' % i, y, object.__getattribute__(x, '_std_dev'))
                elif isinstance(x, core.AffineScalarFunc):
                    q = run(E, core.AffineScalarFunc.__dict__['std_dev'].fget, x)
                    same_num(E, 'standard deviation %d' % i, y, q[1])
                else:
                    same_num(E, 'standard deviation %d' % i, y, 0.)
            E.cover('value')
        E.ensure('array not modified', snap(a) == s)
        fr.check()
    return h


def attr(E, o, name):
    try:
        return 'ok', E.getattr(o, name)
    except EN.EngineSignal:
        raise
    except Exception as e:
        interp.guard(e)
        return 'exc', e


def vectorized(name, nargs, kinds, shapes, cls=numpy.ndarray, kind='O'):
    """unumpy function: each element of the result is what the umath function returns for the elements at its position."""
    uname = ARC.get(name, name)

    def h(E):
        coll.setup(E)
        arrays.install(E)
        calls = []
        E.ncon = 0

        def contract(E, args, kw):
            for a, k, r in calls:
                if len(a) == len(args) and all(p is q for p, q in zip(a, args)) and not kw:
                    return r
            i = len(calls)
            if name in CST:
                r = E.integer('r%d' % i) if CST[name] == 'i' else SBool(E.boolean('r%d' % i))
            else:
                r = coll.new_asf(E, 'r%d' % i) if i != 1 else E.real('r%d' % i)
            calls.append((args, kw, r))
            return r
        target = getattr(umath_core, name)
        E.contracts[target] = contract
        args, flats = [], []
        for i in range(nargs):
            xs = elements(E, 'x%d_' % i, kinds[i:] + kinds[:i], size(shapes[i]))
            if shapes[i] == 'scalar':
                xs = elements(E, 'x%d_' % i, kinds, 1)
                args.append(xs[0])
            elif kind == 'list':
                args.append(nest(xs, shapes[i]))
            else:
                args.append(sarr(xs, shapes[i], cls if i == 0 else numpy.ndarray, None if kind != 'O' else 'O'))
            flats.append(numpy.empty((len(xs),), dtype=object))
            for j, x in enumerate(xs):
                flats[-1][j] = x
        snaps = [snap(a) for a in args]
        r = run(E, getattr(unumpy, uname), *args)
        if not E.ensure('no exception', r[0] == 'ok', show(r)):
            return
        shapes_ = [() if s == 'scalar' else s for s in shapes]
        shape = numpy.broadcast_shapes(*shapes_)
        E.ensure('no keyword argument', not any(k for _, k, _ in calls))
        if is_array_of(E, 'an array of the same shape', r[1], shape, CST.get(name, 'O'), cls):
            idx = [numpy.broadcast_to(numpy.arange(size(s)).reshape(s), shape) for s in shapes_]
            for p in numpy.ndindex(*shape):
                want = [f[i[p]] for f, i in zip(flats, idx)]
                got = numpy.asarray(r[1].a)[p]
                hit = [q for a, _, q in calls if len(a) == len(want) and all(same_arg(x, y) for x, y in zip(a, want))]
                E.ensure('element %s is %s() of the elements at its position' % (p, name), any(got is q for q in hit),
                         'calls %s' % [show_text(c[0]) for c in calls] if not hit else show(got))
            E.cover('value')
        E.ensure('arguments not modified', [snap(a) for a in args] == snaps)
    return h


OPS = {'+': P.add, '-': P.sub, '*': P.mul, '/': P.truediv}


def result_parts(E, x):
    """(nominal value, coefficient of v0) of a scalar."""
    if isinstance(x, core.AffineScalarFunc):
        return object.__getattribute__(x, '_nominal_value'), coll.den(E, object.__getattribute__(x, '_linear_part'))
    return x, coll.ZERO


def arithmetic(op, how, kinds, shapes, cls=numpy.ndarray):
    """array op array or number: each element is the result of the operator applied to the elements at its position."""
    def h(E):
        coll.setup(E)
        arrays.install(E)
        args, flats = [], []
        for i in range(2):
            xs = elements(E, 'xy'[i], kinds[i], size(shapes[i]))
            if op == '/' and i == 1:
                for x in xs:
                    E.assume(E.term(result_parts(E, x)[0]) != 0)
            args.append(xs[0] if shapes[i] == 'scalar' else sarr(xs, shapes[i], cls, 'O'))
            flats.append(xs)
        fr = Frame(E, *[x for f in flats for x in f])
        snaps = [snap(a) for a in args]
        r = run(E, OPS[op], *args)
        if not E.ensure('no exception', r[0] == 'ok', show(r)):
            return
        shapes_ = [() if s == 'scalar' else s for s in shapes]
        shape = numpy.broadcast_shapes(*shapes_)
        if is_array_of(E, 'an array of the same shape', r[1], shape, 'O', cls):
            idx = [numpy.broadcast_to(numpy.arange(size(s)).reshape(s), shape) for s in shapes_]
            for p in numpy.ndindex(*shape):
                x, y = [f[i[p]] for f, i in zip(flats, idx)]
                got = numpy.asarray(r[1].a)[p]
                exp = run(E, OPS[op], x, y)
                if not E.ensure('element %s: defined' % (p,), exp[0] == 'ok', show(exp)):
                    continue
                same_value(E, 'element %s' % (p,), got, exp[1])
            E.cover('value')
        E.ensure('arguments not modified', [snap(a) for a in args] == snaps)
        fr.check()
    return h


def same_value(E, label, got, want):
    unc = isinstance(want, core.AffineScalarFunc)
    if E.ensure(label + ': kind of number', isinstance(got, core.AffineScalarFunc) == unc and (unc or is_num(got)), show(got)):
        g, w = result_parts(E, got), result_parts(E, want)
        same_num(E, label + ': nominal value', g[0], w[0])
        E.ensure(label + ': derivative', g[1] == w[1])


def product(left, right, kl, kr, sl, sr):
    """Products of matrices: sums of products of the elements."""
    def h(E):
        coll.setup(E)
        arrays.install(E)
        mats, args = [], []
        for i, (how, kinds, shape) in enumerate(((left, kl, sl), (right, kr, sr))):
            if how == 'scalar':
                xs = elements(E, 'xy'[i], kinds, 1)
                args.append(xs[0])
                mats.append(xs[0])
                continue
            xs = elements(E, 'xy'[i], kinds, size(shape))
            cls = {'umatrix': unumpy.matrix, 'npmatrix': numpy.matrix}.get(how, numpy.ndarray)
            args.append(nest(xs, shape) if how == 'list' else sarr(xs, shape, cls, 'O' if how == 'umatrix' or kinds != ['float'] else 'f'))
            m = numpy.empty(shape, dtype=object)
            for j, x in enumerate(xs):
                m.flat[j] = x
            mats.append(m)
        snaps = [snap(a) for a in args]
        r = run(E, P.mul, *args)
        if not E.ensure('no exception', r[0] == 'ok', show(r)):
            return
        a, b = mats
        if left == 'scalar':
            shape = b.shape
            terms = lambda i, j: [(a, b[i, j])]
        elif right == 'scalar':
            shape = a.shape
            terms = lambda i, j: [(a[i, j], b)]
        else:
            shape = (a.shape[0], b.shape[1])
            terms = lambda i, j: [(a[i, k], b[k, j]) for k in range(a.shape[1])]
        if E.ensure('a matrix', isinstance(r[1], arrays.SArr) and r[1].a.shape == shape and r[1].kind == 'O' and isinstance(r[1].a, numpy.matrix), show(r)):
            for p in numpy.ndindex(*shape):
                n, d = coll.ZERO, coll.ZERO
                unc = False
                for x, y in terms(*p):
                    (xn, xd), (yn, yd) = result_parts(E, x), result_parts(E, y)
                    n = n + E.term(xn) * E.term(yn)
                    d = d + E.term(xn) * yd + E.term(yn) * xd
                    unc = unc or isinstance(x, core.AffineScalarFunc) or isinstance(y, core.AffineScalarFunc)
                got = numpy.asarray(r[1].a)[p]
                if E.ensure('element %s: kind of number' % (p,), isinstance(got, core.AffineScalarFunc) == unc and (unc or is_num(got)), show(got)):
                    gn, gd = result_parts(E, got)
                    E.ensure('element %s: nominal value' % (p,), E.term(gn) == n)
                    E.ensure('element %s: derivative' % (p,), gd == d)
            E.cover('value')
        E.ensure('arguments not modified', [snap(x) for x in args] == snaps)
    return h


def same_arg(x, y):
    if x is y:
        return True
    return isinstance(x, SFloat) and isinstance(y, SFloat) and x.t.eq(y.t)


def names(E):
    """The names of the functions."""
    coll.setup(E)
    have = set(n for n in dir(unumpy) if isinstance(getattr(unumpy, n), numpy.vectorize))
    for n in ONE + TWO + list(CST):
        u = ARC.get(n, n)
        E.ensure('unumpy.%s exists' % u, hasattr(unumpy, u) and u in unumpy.__all__)
    E.cover('value')


def old_tuple(E):
    coll.setup(E)
    arrays.install(E)
    E.cover('value')


UNITS = {'names': (names, {'covers': ('value',)})}
_v = {'covers': ('value',)}
for _how, _shape, _nk, _sk in (('array', (2,), ['float'], ['float']), ('array', (2, 2), ['float'], ['float']), ('list', (3,), ['float', 'int'], ['float', 'int']),
                               ('list', (1, 2), ['float'], ['float']), ('scalar std', (3,), ['float'], ['float']), ('array', (1,), ['int'], ['float']),
                               ('array', (2, 1, 2), ['float'], ['float']), ('array', (3,), ['nan', 'inf', 'float'], ['float']),
                               ('umatrix', (2, 2), ['float'], ['float']), ('umatrix list', (2, 3), ['float'], ['float']), ('umatrix', (1, 1), ['float'], ['float']),
                               ('old', (2,), ['float'], ['float']), ('old list', (2,), ['float'], ['float']), ('umatrix old', (1, 2), ['float'], ['float'])):
    UNITS['uarray, umatrix: %s %s %s' % (_how, _shape, ' '.join(_nk))] = (uarray(_how, _shape, _nk, _sk), _v)
for _w in ('nominal_values', 'std_devs'):
    for _k, _s in ((['asf'], (2,)), (['var', 'float'], (2, 2)), (['asf', 'int', 'var', 'float'], (4,)), (['float'], (2,)), (['any'], (1,)), (['nan', 'var', 'inf'], (3,)),
                   (['asf', 'float'], (1, 2, 1))):
        UNITS['%s of %s, shape %s' % (_w, ' '.join(_k), _s)] = (values(_w, _k, _s, numpy.ndarray), _v)
    for _c in (unumpy.matrix, numpy.matrix):
        UNITS['%s of a %s.matrix' % (_w, _c.__module__)] = (values(_w, ['var', 'float', 'asf'], (2, 2), _c), _v)
    UNITS['.%s of a matrix' % _w] = (values('.' + _w, ['var', 'asf'], (2, 1), unumpy.matrix), _v)
for _n in ONE + list(CST):
    UNITS['%s: shape (2,)' % _n] = (vectorized(_n, 1, ['asf', 'float'], [(2,)]), _v)
    UNITS['%s: shape (2, 2), list' % _n] = (vectorized(_n, 1, ['var', 'asf'], [(2, 2)], kind='list'), _v)
    UNITS['%s: matrix' % _n] = (vectorized(_n, 1, ['var', 'asf', 'float'], [(1, 3)], unumpy.matrix), _v)
    UNITS['%s: floats' % _n] = (vectorized(_n, 1, ['float'], [(3,)], kind='f'), _v)
for _n in TWO:
    for _sh in (((2,), (2,)), ((2, 1), (1, 2)), ((2,), 'scalar'), ('scalar', (2,)), ((2, 2), (2,))):
        UNITS['%s: shapes %s' % (_n, _sh)] = (vectorized(_n, 2, ['asf', 'float'], list(_sh)), _v)
    UNITS['%s: lists' % _n] = (vectorized(_n, 2, ['asf', 'var'], [(3,), (3,)], kind='list'), _v)
for _op in OPS:
    for _h, _k, _sh in (('array, array', (['asf', 'float'], ['float', 'var']), ((2,), (2,))), ('array, number', (['asf', 'float'], ['asf']), ((2,), 'scalar')),
                        ('number, array', (['asf'], ['asf', 'float']), ('scalar', (2,))), ('array, float', (['asf', 'var'], ['float']), ((2,), 'scalar')),
                        ('float, array', (['float'], ['asf', 'var']), ('scalar', (2,))), ('variable, array', (['var'], ['asf']), ('scalar', (1, 2))),
                        ('broadcasting', (['asf', 'float'], ['var', 'asf']), ((2, 1), (2,)))):
        UNITS['arithmetic: %s %s' % (_op, _h)] = (arithmetic(_op, _h, _k, _sh), _v)
for _l, _r, _kl, _kr, _sl, _sr in (('umatrix', 'umatrix', ['asf', 'float'], ['var', 'asf'], (2, 2), (2, 1)), ('umatrix', 'umatrix', ['asf'], ['asf'], (1, 2), (2, 2)),
                                   ('list', 'umatrix', ['float'], ['asf'], (1, 2), (2, 2)), ('umatrix', 'list', ['asf'], ['float'], (2, 2), (2, 1)),
                                   ('array', 'umatrix', ['float'], ['asf', 'float'], (2, 2), (2, 1)), ('umatrix', 'array', ['asf', 'float'], ['float'], (1, 2), (2, 2)),
                                   ('npmatrix', 'umatrix', ['float'], ['var', 'asf'], (1, 2), (2, 2)), ('umatrix', 'npmatrix', ['var', 'asf'], ['float'], (1, 2), (2, 2)),
                                   ('array', 'umatrix', ['asf', 'float'], ['asf', 'float'], (1, 2), (2, 2)),
                                   ('scalar', 'umatrix', ['float'], ['asf', 'float'], None, (2, 2)), ('umatrix', 'scalar', ['asf', 'float'], ['float'], (2, 2), None),
                                   ('scalar', 'umatrix', ['int'], ['asf', 'var'], None, (1, 2)), ('umatrix', 'scalar', ['asf'], ['int'], (1, 2), None),
                                   ('scalar', 'umatrix', ['asf'], ['asf', 'float'], None, (1, 2)), ('scalar', 'umatrix', ['var'], ['asf'], None, (2, 1))):
    UNITS['product: %s * %s, %s %s %s %s' % (_l, _r, _kl[0], _kr[0], _sl, _sr)] = (product(_l, _r, _kl, _kr, _sl, _sr), _v)
