# -*- coding: utf-8 -*-
"""C13: copies and pickles."""
import copy, pickle
from .base import *
from . import expr, nums
import numpy
import uncertainties
from uncertainties import unumpy
from uncertainties import ufloat, UFloat
from uncertainties.core import Variable, AffineScalarFunc


class SubDict(Variable):
    pass


class SubSlots(Variable):
    __slots__ = ('extra', 'other')


class SubStr(Variable):
    __slots__ = 'extra'


class SubBoth(SubSlots):
    __slots__ = ('third', '__dict__')


class SubEmpty(Variable):
    __slots__ = ()


class AffSlots(AffineScalarFunc):
    __slots__ = ('extra', 'other')


class AffDict(AffineScalarFunc):
    pass


SUBS = {'SubDict': (SubDict, ['extra', 'other', 'x1']), 'SubSlots': (SubSlots, ['extra', 'other']), 'SubStr': (SubStr, ['extra']),
        'SubBoth': (SubBoth, ['extra', 'other', 'third', 'free', 'free2']), 'SubEmpty': (SubEmpty, [])}
AFFS = {'AffSlots': (AffSlots, ['extra', 'other']), 'AffDict': (AffDict, ['extra', 'zz'])}


def snap(x, keys):
    """Values in terms of stable variable names."""
    ec = x.error_components()
    return (x.nominal_value, float(x.std_dev), {keys.get(id(v), '?'): d for v, d in x.derivatives.items()},
            {keys.get(id(v), '?'): float(c) for v, c in ec.items()}, x.tag if isinstance(x, Variable) else None)


def eqd(a, b):
    return set(a) == set(b) and all(same(a[k], b[k]) for k in a)


def eqs(a, b):
    return same(a[0], b[0]) and same(a[1], b[1]) and eqd(a[2], b[2]) and eqd(a[3], b[3]) and a[4] == b[4]


def agree(w, i, x, y):
    """Same values, standard deviations, derivatives (up to rounding of another order of evaluation) and tags."""
    nd = w.nodes[i]
    if not same(x.nominal_value, y.nominal_value):
        return 'nominal value %r instead of %r' % (y.nominal_value, x.nominal_value)
    s, er = w.std(nd)
    if not abs(y.std_dev - x.std_dev) <= 2 * er + 1e-11 * s + 1e-150:
        return 'standard deviation %r instead of %r' % (y.std_dev, x.std_dev)
    byname = {v.tag[0]: v for v in y.derivatives}
    if len(byname) != len(y.derivatives):
        return 'variables %r' % (list(y.derivatives),)
    xn = {v.tag[0]: v for v in x.derivatives}
    ec = y.error_components()
    for name in set(byname) | set(xn):
        k = int(name[1:])
        a = x.derivatives[xn[name]] if name in xn else 0.
        b = y.derivatives[byname[name]] if name in byname else 0.
        tol = 2 * nd.e.get(k, 0.) + 1e-11 * nd.a.get(k, 0.) + 1e-290
        if not abs(a - b) <= tol:
            return 'derivative %r instead of %r' % (b, a)
        if name in byname:
            v = byname[name]
            if name in xn and (v.tag != xn[name].tag or not same(v.nominal_value, xn[name].nominal_value)):
                return 'variable %r instead of %r' % (v, xn[name])
            if not same(float(v.std_dev), w.sds[k]):
                return 'standard deviation of variable %r, instead of %r' % (v, w.sds[k])
            if not abs(ec[v] - abs(a) * w.sds[k]) <= tol * w.sds[k] + 1e-300:
                return 'error component %r instead of %r' % (ec[v], abs(a) * w.sds[k])


def check(case):
    if case[0] == 'sub':
        return check_sub(case)
    if case[0] == 'exact':
        return check_exact(case)
    _, prog, ops, group, proto, tags = case
    w = expr.World()
    for st in prog:
        w.step(st)
    m = len(w.real)
    vs = list(w.vars.values())
    for n, v in enumerate(vs):
        v.tag = ('t%d' % n, tags[n % len(tags)])
    keys = {id(v): n for n, v in enumerate(vs)}
    if ops and ops[0][2] % 3 == 0:      # evaluated beforehand or not
        for x in w.real:
            x.derivatives
    twin = expr.World()
    for st in prog:
        twin.step(st)
    results = []
    for op, i, j in ops:
        i %= m
        x = w.real[i]
        if op == 'copy':
            y = copy.copy(x)
        elif op == 'deepcopy':
            y = copy.deepcopy(x)
        else:
            y = pickle.loads(pickle.dumps(x, j % 6))
        results.append((op, i, y))
        if type(y) is not type(x):
            return '%s of %s gives %s' % (op, type(x).__name__, type(y).__name__)
        if y is x:
            return '%s returns the same object' % op
    if group:
        gi = [g % m for g in group]
        g2 = pickle.loads(pickle.dumps([w.real[g] for g in gi], proto))
    # originals unaffected (compared with the oracle)
    for i in range(m):
        e = w.verify(i)
        if e:
            return 'original: ' + e
        if isinstance(w.real[i], Variable) and w.real[i].tag != ('t%d' % w.nodes[i].var, tags[w.nodes[i].var % len(tags)]):
            return 'tag of an original'
    osn = [snap(x, keys) for x in w.real]
    errs = [w.std(nd)[1] for nd in w.nodes]
    seen = set(keys)
    for op, i, y in results:
        x = w.real[i]
        if op == 'copy' and not isinstance(x, Variable):
            e = agree(w, i, x, y)
            if e or any(id(v) not in keys for v in y.derivatives):
                return 'copy: %s' % (e or 'other variables')
            continue
        e = agree(w, i, x, y)
        if e:
            return op + ': ' + e
        for v in y.derivatives:
            if id(v) in seen:
                return '%s shares a variable with another quantity' % op
        seen |= {id(v) for v in y.derivatives}
        if isinstance(x, Variable):
            if list(y.derivatives) != [y] or y.derivatives[y] != 1 or y.tag != x.tag:
                return '%s of a variable depends on %r, tag %r' % (op, list(y.derivatives), y.tag)
        for z in w.real:
            if uncertainties.covariance_matrix([y, z])[0][1] != 0:
                return '%s is correlated with an original' % op
    # evaluated twins
    for k, (op, i, y) in enumerate(results):
        for op2, i2, y2 in results[k + 1:]:
            if y2 is y:
                return 'same object'
    if group:
        newvars = {}
        for g, x, y in zip(gi, [w.real[g] for g in gi], g2):
            e = agree(w, g, x, y) if type(x) is type(y) else 'type %s' % type(y).__name__
            if e:
                return 'group: ' + e
            for v in y.derivatives:
                if newvars.setdefault(v.tag, v) is not v:
                    return 'quantities pickled together do not share their variables'
                if id(v) in keys:
                    return 'unpickling reuses a variable'
            if isinstance(x, Variable) and (list(y.derivatives) != [y] or y.tag != x.tag):
                return 'unpickled variable'
        a = uncertainties.covariance_matrix([w.real[g] for g in gi])
        b = uncertainties.covariance_matrix(g2)
        for i in range(len(gi)):
            for j in range(len(gi)):
                na, nb = w.nodes[gi[i]], w.nodes[gi[j]]
                tol = sum(w.sds[k] ** 2 * 3 * ((na.e[k] + 1e-11 * na.a[k]) * (nb.a[k] + nb.e[k]) + (nb.e[k] + 1e-11 * nb.a[k]) *
                                               (na.a[k] + na.e[k])) for k in na.d if k in nb.d)
                if not abs(a[i][j] - b[i][j]) <= tol + 1e-300:
                    return 'covariances after unpickling: %r instead of %r' % (b[i][j], a[i][j])
    # copies and originals stay independent when a standard deviation is assigned
    for v in vs:
        v.std_dev = 7.5
    for op, i, y in results:
        if not (op == 'copy' and not isinstance(w.real[i], Variable)):
            if not abs(y.std_dev - osn[i][1]) <= 2 * errs[i] + 1e-9 * osn[i][1] + 1e-150:
                return '%s follows the standard deviations of the originals' % op
    for op, i, y in results:
        if isinstance(y, Variable):
            y.std_dev = .125
    for x in w.real:
        if isinstance(x, Variable) and x.std_dev != 7.5:
            return 'assignment to a copy changed an original'


def check_exact(case):
    """Quantities that depend on no variable (elements of an inverse matrix)."""
    _, value, i, j, how = case
    x = unumpy.ulinalg.inv(numpy.array([[ufloat(2., .1, 'v'), 0.], [0., value]], dtype=object))[i, j]
    if not isinstance(x, UFloat):
        return 'element of type %s' % type(x).__name__
    if how in ('copy', 'deepcopy'):
        y, z = getattr(copy, how)(x), x
    else:
        y, z = pickle.loads(pickle.dumps([x, x], how))
        if y is not z:
            return 'identity is lost'
    if type(y) is not type(x) or not same(y.nominal_value, x.nominal_value):
        return '%r instead of %r' % (y.nominal_value, x.nominal_value)
    a = sorted((v.tag, d) for v, d in x.derivatives.items())
    b = sorted((v.tag, d) for v, d in y.derivatives.items())
    if a != b or y.std_dev != x.std_dev:
        return 'derivatives %r instead of %r' % (b, a)
    if (y + 1).nominal_value != x.nominal_value + 1 or (y * 2).std_dev != 2 * x.std_dev:
        return 'cannot be used'


def check_sub(case):
    _, cls, n, s, tag, attrs, how, proto, used = case
    if cls in SUBS:
        c, names = SUBS[cls]
        x = c(n, s, tag)
    else:
        c, names = AFFS[cls]
        base = ufloat(n, s, tag)
        f = 2 * base
        x = c(f.nominal_value, f._linear_part)
    for name, val in attrs.items():
        if name in names:
            setattr(x, name, val)
    if used:
        repr(x), x.derivatives
    if cls in SUBS:
        for y in (copy.copy(x), copy.deepcopy(x)):
            if y.tag != tag or type(y.tag) is not type(tag):
                return 'tag %r of a copy instead of %r' % (y.tag, tag)
    y = pickle.loads(pickle.dumps(x, proto)) if how == 'one' else pickle.loads(pickle.dumps({'a': [x, x * 2, x]}, proto))
    if how != 'one':
        l = y['a']
        if l[0] is not l[2]:
            return 'identity inside one pickle'
        d = l[1] - l[0] * 2
        if d.nominal_value != 0 or d.std_dev != 0:
            return 'correlations inside one pickle'
        y = l[0]
    if type(y) is not c:
        return 'unpickled as %s' % type(y).__name__
    if not same(y.nominal_value, x.nominal_value) or not same(float(y.std_dev), float(x.std_dev)):
        return 'unpickled %r instead of %r' % (y, x)
    if cls in SUBS:
        if y.tag != tag or list(y.derivatives) != [y]:
            return 'tag or derivatives'
        y.std_dev = 3.
        if float(x.std_dev) != s:
            return 'the original follows'
        if y.std_dev != 3.:
            return 'assignment after unpickling'
    for name in names:
        a, b = getattr(x, name, 'missing'), getattr(y, name, 'missing')
        if repr(a) != repr(b):
            return 'attribute %s: %r instead of %r' % (name, b, a)
    if getattr(x, '__dict__', {}) != getattr(y, '__dict__', {}) and repr(getattr(x, '__dict__', {})) != repr(getattr(y, '__dict__', {})):
        return '__dict__'


ATTR = ['extra', 'other', 'third', 'free', 'x1', 'zz', 'free2']
FIXED = [('sub', c, 1., .25, t, {a: i for i, a in enumerate(ATTR[:k])}, how, p, u) for c in list(SUBS) + list(AFFS) for t in (None, 'a', '', 0)
         for k in (0, 1, 7) for how in ('one', 'many') for p in range(6) for u in (0, 1)]
FIXED += [('exact', 4., i, j, how) for i in (0, 1) for j in (0, 1) for how in ('copy', 'deepcopy', 0, 1, 2, 3, 4, 5)]


def gen(r):
    if r.random() < .2:
        return ('sub', r.choice(list(SUBS) + list(AFFS)), nums.fl(r), nums.sd(r), r.choice([None, 'a', u'\xe9', 5, '', 0, (), False]),
                {a: r.choice([None, 1, 'x', [1, 2], 2.5, False, 0]) for a in ATTR if r.random() < .6}, r.choice(['one', 'many']),
                r.randrange(6), r.randrange(2))
    return ('grp', expr.program(r, 8, reads=.2, sets=.2),
            [(r.choice(['copy', 'deepcopy', 'pickle']), r.randrange(50), r.randrange(60)) for _ in range(r.randint(1, 5))],
            [r.randrange(50) for _ in range(r.randint(0, 5))], r.randrange(6), [r.choice(['', 'a', u'\xe9', 'b']) for _ in range(4)])
