# -*- coding: utf-8 -*-
"""C06: wrap() uses the right derivative for every uncertain argument."""
import fractions, decimal, itertools
from .base import *
from . import nums
import numpy
from uncertainties import ufloat, UFloat, wrap

A = [1., 2., -3., .5, 4.]           # f = sum A[i]*v_i + B * sum of products of neighbours
B = .25


class Rec(object):
    def __init__(self):
        self.calls = []

    def value(self, vals):
        t = 0.
        for i, v in enumerate(vals):
            t += A[i % 5] * v
        for u, v in zip(vals, vals[1:]):
            t += B * u * v
        return t

    def partial(self, vals, i):
        t = A[i % 5]
        if i:
            t += B * vals[i - 1]
        if i + 1 < len(vals):
            t += B * vals[i + 1]
        return t


SIGS = {
    # name: (positional parameter names, defaults, varargs?, keyword-only, varkw?)
    'x': (['x'], {}, False, [], False),
    'xy': (['x', 'y'], {}, False, [], False),
    'xyd': (['x', 'y'], {'y': 2.5}, False, [], False),
    'xyzd': (['x', 'y', 'z'], {'y': 1.5, 'z': -2.}, False, [], False),
    'va': ([], {}, True, [], False),
    'xva': (['x'], {}, True, [], False),
    'ko': (['x'], {}, False, ['k'], False),
    'kw': (['x'], {}, False, [], True),
    'xykw': (['x', 'y'], {'y': 1.25}, False, [], True),
    'meth': (['x', 'y'], {'y': 2.5}, False, [], False),
}


def build(sig, rec, result):
    """A function with the given signature; full list of values in canonical order."""
    names, dfl, va, ko, vk = SIGS[sig]

    def body(vals, raw):
        rec.calls.append(raw)
        return result(rec.value(vals))
    if sig == 'x':
        def f(x): return body([x], ((x,), {}))
    elif sig == 'xy':
        def f(x, y): return body([x, y], ((x, y), {}))
    elif sig == 'xyd':
        def f(x, y=2.5): return body([x, y], ((x, y), {}))
    elif sig == 'xyzd':
        def f(x, y=1.5, z=-2.): return body([x, y, z], ((x, y, z), {}))
    elif sig == 'va':
        def f(*a): return body(list(a), (a, {}))
    elif sig == 'xva':
        def f(x, *a): return body([x] + list(a), ((x,) + a, {}))
    elif sig == 'ko':
        def f(x, *, k=3.): return body([x, k], ((x,), {'k': k}))
    elif sig == 'kw':
        def f(x, **q): return body([x] + [q[n] for n in sorted(q)], ((x,), dict(q)))
    elif sig == 'xykw':
        def f(x, y=1.25, **q): return body([x, y] + [q[n] for n in sorted(q)], ((x, y), dict(q)))
    elif sig == 'meth':
        class K(object):
            def f(self, x, y=2.5): return body([x, y], ((x, y), {}))
        f = K().f
    return f


RESULTS = {'float': lambda v: v, 'np': numpy.float64, 'frac': fractions.Fraction, 'dec': decimal.Decimal,
           'str': lambda v: 'a', 'none': lambda v: None, 'list': lambda v: [v], 'arr': lambda v: numpy.array([v]),
           'int': lambda v: int(v), 'bool': lambda v: v > 0, 'tuple': lambda v: (v, v)}


def canonical(sig, pos, kw):
    """Values in canonical order, with for each a label: position or keyword name."""
    names, dfl, va, ko, vk = SIGS[sig]
    vals, lab = [], []
    for i, v in enumerate(pos):
        vals.append(v)
        lab.append(i)
    for n in names[len(pos):]:
        if n in kw:
            vals.append(kw[n])
            lab.append(n)
        else:
            vals.append(dfl[n])
            lab.append(None)
    for n in ko:
        vals.append(kw.get(n, 3.))
        lab.append(n if n in kw else None)
    for n in sorted(kw):
        if n not in names and n not in ko:
            vals.append(kw[n])
            lab.append(n)
    return vals, lab


SCALED = {
    # functions whose relative variation does not depend on the magnitude of the argument
    'inv': (lambda x: 1. / x, lambda x: -1. / x / x), 'sq': (lambda x: x * x, lambda x: 2 * x),
    'sqrt': (lambda x: abs(x) ** .5, lambda x: .5 * abs(x) ** .5 / x), 'cube': (lambda x: x ** 3, lambda x: 3 * x * x),
    'two': (lambda x, y=3.: y / x, lambda x: -3. / x / x),
}


def check_scaled(case):
    _, name, x, how = case
    f, d = SCALED[name]
    v = ufloat(x, abs(x) / 10)
    if how == 'pos':
        r = wrap(f)(v)
    elif how == 'none':
        r = wrap(f, [None])(v)
    elif how == 'kw':
        r = wrap(f)(x=v)
    else:
        r = wrap(f, [lambda *a, **k: 1.])(v * 1) and wrap(lambda *a: f(*a))(0 + v)
    g, e = r.derivatives[v], d(x)
    if not abs(g - e) <= 1e-5 * abs(e):
        return 'numerical derivative of %s at %r: %r instead of %r' % (name, x, g, e)


def check(case):
    if case[0] == 'scaled':
        return check_scaled(case)
    sig, dargs, container, dkw, res, calls = case
    names, dfl, va, ko, vk = SIGS[sig]
    rec = Rec()
    f = build(sig, rec, RESULTS[res])
    dcalls = []

    def given(label):
        def d(*a, **k):
            dcalls.append((label, a, dict(k)))
            return label_value(label)
        return d

    dl = [given(i) if g else None for i, g in enumerate(dargs)]
    if container == 'tuple':
        da = tuple(dl)
    elif container == 'iter':
        da = iter(dl)
    elif container == 'gen':
        da = (d for d in dl)
    elif container == 'cycle':
        da = itertools.cycle(dl) if dl else itertools.repeat(None)
    elif container == 'count':
        da = map(lambda i: dl[i % len(dl)] if dl else None, itertools.count())
    else:
        da = dl
    dk = {n: (given(n) if g else None) for n, g in dkw.items() if n in ko or vk and n not in names}
    before = (list(dl), dict(dk))
    w = wrap(f, da, dk) if (dk or container != 'default') else wrap(f)
    infinite = container in ('cycle', 'count')
    if container == 'default':
        if dk:
            pass
        else:
            dl = []
    if container == 'list' and (list(da) != before[0]) or dict(dk) != before[1]:
        return 'wrap() modified its arguments'
    for pos, kw in calls:
        del rec.calls[:], dcalls[:]
        x = ufloat(2., .5)
        objs = {}

        def mk(o):
            if o[0] == 'u':
                return ufloat(o[1], o[2])
            if o[0] == 'a':
                return 2 * x + (o[1] - 4.)
            if o[0] == 'c':
                return x - x + o[1]
            return o[1]

        po = [mk(o) for o in pos]
        ko_ = {n: mk(o) for n, o in kw.items()}
        kwin = dict(ko_)
        if res in ('int', 'bool', 'dec') and (not (infinite and all(dargs) and dl) or any(
                n not in names and isinstance(o, UFloat) and not dk.get(n) for n, o in ko_.items())):
            continue          # no numerical derivatives of step functions, or of Decimal values
        got = w(*po, **kwin)
        if set(kwin) != set(ko_) or any(kwin[n] is not ko_[n] for n in ko_):
            return 'keyword dictionary of the caller modified'
        nom = lambda o: o.nominal_value if isinstance(o, UFloat) else o
        npos = [nom(o) for o in po]
        nkw = {n: nom(o) for n, o in ko_.items()}
        vals, lab = canonical(sig, npos, nkw)
        unc = [i for i, l in enumerate(lab) if l is not None and
               isinstance(po[l] if isinstance(l, int) else ko_[l], UFloat)]
        expected = RESULTS[res](rec.value(vals))
        # calls of f
        if not rec.calls:
            return 'the function was not called'

        def canon_raw(raw):
            return canonical(sig, list(raw[0]), raw[1])[0]
        first = [canon_raw(c) for c in rec.calls]
        if not any(len(c) == len(vals) and all(p is q or same(p, q) for p, q in zip(c, vals)) for c in first):
            return 'the function was never called at the nominal values: %r' % first
        nnom = sum(all(p is q or same(p, q) for p, q in zip(c, vals)) for c in first)
        if nnom != 1:
            return 'the function was evaluated %d times at the nominal values' % nnom
        if not unc:
            if len(rec.calls) != 1:
                return 'plain call evaluated the function %d times' % len(rec.calls)
            if isinstance(got, UFloat) or type(got) is not type(expected):
                return 'plain call returned %r instead of %r' % (got, expected)
            continue
        if res in ('str', 'none', 'list', 'arr', 'tuple'):
            if got is not NotImplemented:
                return 'non-float result: %r instead of NotImplemented' % (got,)
            continue
        if not isinstance(got, UFloat):
            return 'result %r' % (got,)
        if not same(got.nominal_value, float(expected)):
            return 'nominal value %r instead of %r' % (got.nominal_value, expected)
        # expected derivatives
        exp = {}
        used = []
        mag = sum(abs(v) * 5 for v in vals) + sum(abs(a * b) for a, b in zip(vals, vals[1:])) + 1
        tols = 0.
        numeric_idx = []
        for i in unc:
            l = lab[i]
            o = po[l] if isinstance(l, int) else ko_[l]
            # which derivative?
            if isinstance(l, int):
                p = l
            elif l in names:
                p = names.index(l)
            else:
                p = None
            if p is not None:
                src = dl[p % len(dl)] if (infinite and dl) else (dl[p] if p < len(dl) else None)
                label = (p % len(dl)) if (infinite and dl) else p
            else:
                src = dk.get(l)
                label = l
            if src is not None:
                d = label_value(label)
                used.append(label)
            else:
                d = rec.partial(vals, i)
                m = min(1., abs(vals[i])) or 1.
                tols += 1e-7 * (abs(d) + mag / m)
                numeric_idx.append(i)
            for v, c in o.derivatives.items():
                exp[v] = exp.get(v, 0.) + c * d
        for v in got.derivatives:
            if v not in exp:
                return 'unexpected variable'
        for v, d in exp.items():
            g = got.derivatives.get(v, 0.)
            if not abs(g - d) <= 1e-12 * abs(d) + tols * 2 + 1e-9:
                return 'derivative %r instead of %r (arguments %r %r)' % (g, d, npos, nkw)
        # calls of the supplied derivatives: right ones, at the nominal arguments
        if sorted(map(str, used)) != sorted(str(c[0]) for c in dcalls):
            return 'derivatives called: %r instead of %r' % ([c[0] for c in dcalls], used)
        for label, a, k in dcalls:
            v2, _ = canonical(sig, list(a), k)
            if len(v2) != len(vals) or not all(p is q or same(p, q) for p, q in zip(v2, vals)):
                return 'derivative %r called at %r %r instead of %r' % (label, a, k, vals)
        # numerical derivatives: symmetric
        shifts = {}
        for c in first:
            dif = [j for j in range(len(vals)) if not (c[j] is vals[j] or same(c[j], vals[j]))]
            if not dif:
                continue
            if len(dif) != 1 or dif[0] not in numeric_idx:
                return 'the function was evaluated at %r' % (c,)
            shifts.setdefault(dif[0], []).append(c[dif[0]] - vals[dif[0]])
        for i in numeric_idx:
            sh = sorted(shifts.get(i, []))
            if not sh or any(abs(p + q) > 1e-3 * max(abs(p), abs(q)) + 1e-15 * abs(vals[i])
                             for p, q in zip(sh, reversed(sh))):
                return 'numerical derivative not symmetric: shifts %r' % sh


def label_value(l):
    return 1000. + 10 * l if isinstance(l, int) else 7000. + 10 * ord(l[0])


FIXED = [('scaled', n, x, how) for n in SCALED for x in (1., -3.5, 1e-3, 1e-7, -1e-12, 1e-40, 1e4, 1e9, -1e40, 123456.)
         for how in ('pos', 'none', 'kw', 'var')]


def gen(r):
    sig = r.choice(list(SIGS))
    names, dfl, va, ko, vk = SIGS[sig]
    container = r.choice(['list', 'list', 'tuple', 'iter', 'gen', 'cycle', 'count', 'default'])
    dargs = [r.random() < .6 for _ in range(r.randint(0, 5))]
    if container == 'default':
        dargs = []
    dkw = {n: r.random() < .6 for n in ['k', 'a', 'b'] if r.random() < .5} if (ko or vk) and container != 'default' else {}
    res = r.choice(['float'] * 6 + list(RESULTS))
    if container in ('cycle', 'count') and not dargs:
        container = 'cycle'
    calls = []
    for _ in range(r.randint(1, 4)):
        def arg():
            k = r.random()
            v = nums.fl(r, -2, 2)
            if k < .5:
                return ('u', v, nums.sd(r))
            if k < .6:
                return ('a', v)
            if k < .65:
                return ('c', v)
            return ('p', v if r.random() < .7 else int(v))
        npos = r.randint(0, len(names))
        pos = [arg() for _ in range(npos)]
        kw = {}
        for n in names[npos:]:
            if n not in dfl or r.random() < .6:
                kw[n] = arg()
        if va and npos == len(names):
            pos += [arg() for _ in range(r.randint(0 if names else 1, 3))]
        for n in ko:
            if r.random() < .7:
                kw[n] = arg()
        if vk:
            for n in ['a', 'b', 'c']:
                if r.random() < .4:
                    kw[n] = arg()
        items = list(kw.items())
        r.shuffle(items)
        calls.append((pos, dict(items)))
    return (sig, dargs, container, dkw, res, calls)
