# -*- coding: utf-8 -*-
"""C08: contract of covariance_matrix(), relative to an arbitrary variable v0, for quantities with any number of variables
(sequences of 1 to 3 quantities)."""
from .common import *
import uncertainties
from .. import arrays


def make(E, kind, name):
    if kind == 'v0':
        return E.v0
    if kind == 'zero':      # depends on v0 with zero standard deviation and a NaN or infinite derivative
        x = coll.new_asf(E, name, 'exp')
        d = {}
        E.keep.append(d)
        E.side[id(d)] = coll.MapSide(name, True, (NAN, float('inf'), -float('inf'))[E.choose(E.zeros, 'derivative')])
        lc = lin(x)
        del E.abstract[id(lc)]      # explicit content, instead of an arbitrary one
        object.__setattr__(lc, 'linear_combo', d)
        return x
    return operand(E, name, kind)[0]


def lin(x):
    return object.__getattribute__(x, '_linear_part')


def std(E, v):
    return E.term(object.__getattribute__(v, '_std_dev'))


def common(E, a, b, kinds):
    """Specification of an entry if one of the quantities is a variable: derivative of the other * variance (term)."""
    for v, w in ((a, b), (b, a)):
        if isinstance(v, core.Variable):
            if w is v:
                return std(E, v) * std(E, v)
            if isinstance(w, core.Variable):
                return rv(0)
            if v is E.v0:
                return coll.den(E, lin(w)) * std(E, v) * std(E, v)
            return None if E.mixed else coll.den_at(E, lin(w), v) * std(E, v) * std(E, v)
    return None


def entry(E, M, i, j, xs, kinds, recs):
    got = M[i][j]
    label = 'entry (%d, %d)' % (i, j)
    if not E.ensure(label + ' is a float', is_num(got) and E.type_of(got) is float, show(got)):
        return
    want = rv(0) if 'zero' in kinds and (xs[i] is E.v0 or xs[j] is E.v0) else common(E, xs[i], xs[j], kinds)
    if want is not None:
        if isinstance(got, float) and not finite_const(got):
            E.ensure(label, False, repr(got))
        else:
            E.ensure(label + ' (a variable): derivative * std_dev**2', E.term(got) == want)
        return
    rec = [r for r in recs if r['result'] is got or (isinstance(got, SNum) and isinstance(r['result'], SNum) and r['result'].t.eq(got.t))]
    t0 = coll.ZERO
    w0 = rv(0) if 'zero' in kinds else coll.den(E, lin(xs[i])) * coll.den(E, lin(xs[j])) * std(E, E.v0) * std(E, E.v0)
    if not rec:
        # no other common variable on this path
        E.ensure(label + ': term of the only variable', not (isinstance(got, float) and not finite_const(got)) and E.term(got) == w0, show(got))
        return
    for v in rec[0]['v0']:
        if isinstance(v, float) and not finite_const(v):
            E.ensure(label + ': term of an arbitrary variable', False, repr(v))
            return
        t0 = t0 + E.term(v)
    E.ensure(label + ': term of an arbitrary variable is the product of derivatives * std_dev**2', t0 == w0)


def covariance(kinds, seq=list):
    def h(E):
        E.sum_nonfinite = kinds in (('asf',), ('asf', 'v0'), ('v0', 'asf'))
        E.mixed = False
        E.zeros = 3 if len(kinds) == 1 else 1
        coll.setup(E)
        if 'zero' not in kinds:
            expand_contract(E)
        else:
            object.__setattr__(E.v0, '_std_dev', core.CallableStdDev(0.))
        xs = [make(E, k, 'x%d' % n) for n, k in enumerate(kinds)]
        fr = Frame(E, E.v0, *[x for x, k in zip(xs, kinds) if k != 'zero'])
        arg = seq(xs)
        n = len(E.sums)
        r = run(E, uncertainties.covariance_matrix, arg)
        if not E.ensure('no exception', r[0] == 'ok', show(r)):
            return
        M = r[1]
        ok = type(M) is list and len(M) == len(xs) and all(type(l) is list and len(l) == len(xs) for l in M)
        if E.ensure('a list of lists', ok, show(M)):
            E.ensure('rows are distinct lists', len(set(map(id, M))) == len(M))
            for i in range(len(xs)):
                for j in range(i + 1):
                    entry(E, M, i, j, xs, kinds, E.sums[n:])
                    if i != j:
                        same_num(E, 'symmetric (%d, %d)' % (i, j), M[j][i], M[i][j])
            E.cover('value')
        E.ensure('argument not modified', len(arg) == len(xs) and all(a is b for a, b in zip(arg, xs)))
        fr.check('unchanged by covariance_matrix()')
    return h


def empty(E):
    coll.setup(E)
    for a in ([], ()):
        r = run(E, uncertainties.covariance_matrix, a)
        E.ensure('empty list', r[0] == 'ok' and r[1] == [] and type(r[1]) is list, show(r))
    E.cover('value')


UNITS = {'no quantity': (empty, {'covers': ('value',)})}
for _k in (('asf',), ('v0',), ('var',), ('asf', 'asf'), ('asf', 'var'), ('var', 'asf'), ('asf', 'v0'), ('v0', 'asf'), ('v0', 'v0'),
           ('var', 'var'), ('v0', 'var'), ('zero',), ('zero', 'zero'), ('zero', 'asf'), ('asf', 'zero'), ('v0', 'zero'),
           ('asf', 'v0', 'var'), ('asf', 'asf', 'asf'), ('v0', 'asf', 'v0'), ('var', 'asf', 'var')):
    UNITS['covariance_matrix of ' + ' '.join(_k)] = (covariance(_k, tuple if len(_k) == 2 and 'v0' in _k else list), {'covers': ('value',), 'thorough': _k == ('asf',) * 3})


def correlation(kinds):
    """correlation_matrix(): the covariances (used through their contract) divided by the product of the standard deviations."""
    def h(E):
        coll.setup(E)
        arrays.install(E)
        xs = [make(E, k, 'x%d' % n) for n, k in enumerate(kinds)]
        cov = {}
        for i in range(len(xs)):
            for j in range(i + 1):
                cov[i, j] = cov[j, i] = E.real('cov_%d_%d' % (j, i))
        stds = []
        for i in range(len(xs)):
            E.fact(cov[i, i].t > 0)
        M = [[cov[i, j] for j in range(len(xs))] for i in range(len(xs))]
        asked = []

        def contract(E, args, kw):
            asked.append(args)
            return M
        E.contracts[uncertainties.covariance_matrix] = contract
        arg = list(xs)
        r = run(E, uncertainties.correlation_matrix, arg)
        if not E.ensure('no exception', r[0] == 'ok', show(r)):
            return
        R = r[1]
        E.ensure('covariances of the argument', len(asked) >= 1 and all(len(a) == 1 and len(a[0]) == len(xs) and all(p is q for p, q in zip(a[0], xs)) for a in asked), show(asked))
        n = len(xs)
        if E.ensure('array of floats', isinstance(R, arrays.SArr) and R.kind == 'f' and R.a.shape == (n, n), show(R)):
            for i in range(n):
                for j in range(n):
                    x = R.a[i, j]
                    c, a, b = cov[i, j].t, cov[i, i].t, cov[j, j].t
                    if not E.ensure('entry (%d, %d) is finite' % (i, j), not (isinstance(x, float) and not finite_const(x)), show(x)):
                        continue
                    t = E.term(x)
                    # t = c / (sqrt(a) sqrt(b)): same sign and same square
                    E.ensure('entry (%d, %d): covariance / standard deviations (square)' % (i, j), t * t * a * b == c * c)
                    E.ensure('entry (%d, %d): sign' % (i, j), z3.And((t > 0) == (c > 0), (t < 0) == (c < 0)))
                    if i == j:
                        E.ensure('diagonal (%d)' % i, t == 1)
        E.ensure('argument not modified', len(arg) == n and all(a is b for a, b in zip(arg, xs)))
        E.cover('value')
    return h


for _n in (1, 2, 3):
    UNITS['correlation_matrix of %d quantities' % _n] = (correlation(('var',) * _n), {'covers': ('value',)})
