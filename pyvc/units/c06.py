# -*- coding: utf-8 -*-
"""C06: contract of wrap(): for an arbitrary function f (uninterpreted, several signatures), derivative specifications
and call histories."""
from .wraps import *

# call patterns per signature: kinds of the positional arguments, of the keyword arguments
CALLS = {
    'f(x)': [(('asf',), {}), ((), {'x': 'var'}), (('var',), {})],
    'f(x, y)': [(('asf', 'var'), {}), (('float', 'asf'), {}), (('asf', 'opaque'), {}), (('var',), {'y': 'asf'}), ((), {'y': 'asf', 'x': 'float'}),
                (('opaque',), {'y': 'asf'}), (('asf', 'same'), {})],
    'f(x, y=2.5)': [(('asf',), {}), (('asf', 'asf'), {}), (('float',), {'y': 'var'}), ((), {'x': 'asf'}), ((), {'y': 'asf', 'x': 'var'})],
    'f(x, y, z=1.)': [(('asf', 'float', 'asf'), {}), (('float', 'asf'), {'z': 'asf'}), (('var',), {'z': 'asf', 'y': 'float'}),
                      (('opaque', 'float', 'var'), {}), (('asf', 'asf', 'asf'), {}), ((), {'z': 'asf', 'y': 'asf', 'x': 'asf'})],
    'f(x=1., y=2., z=3.)': [((), {'z': 'asf'}), ((), {'y': 'asf', 'z': 'asf'}), (('asf',), {'z': 'asf'}), (('float', 'asf'), {})],
    'f(*a)': [(('asf',), {}), (('float', 'asf', 'var'), {}), (('asf', 'opaque', 'asf', 'asf'), {})],
    'f(x, *a)': [(('asf',), {}), (('asf', 'float', 'asf'), {}), (('float', 'opaque', 'asf', 'asf'), {})],
    'f(x, *, k=3.)': [(('asf',), {}), (('asf',), {'k': 'asf'}), (('float',), {'k': 'asf'}), ((), {'k': 'asf', 'x': 'asf'})],
    'f(x, **q)': [(('asf',), {}), (('asf',), {'k': 'asf'}), (('float',), {'k': 'asf', 'l': 'asf'}), (('asf',), {'l': 'opaque', 'k': 'float'})],
    'f(x, y=1., **q)': [(('asf',), {'k': 'asf'}), (('float', 'asf'), {'k': 'float'}), (('float',), {'y': 'asf', 'k': 'asf'}), ((), {'x': 'asf', 'l': 'asf', 'k': 'asf'})],
    'builtin(x, y)': [(('asf', 'float'), {}), (('float', 'asf'), {}), (('asf', 'asf'), {}), (('asf',), {'y': 'asf'})],
    'method(self, x, y=2.)': [(('asf',), {}), (('asf', 'asf'), {}), (('float',), {'y': 'asf'}), ((), {'x': 'asf', 'y': 'asf'})],
}
# derivative specifications: for each parameter / position D (given) or None; None as a whole: the argument is omitted
G, N = True, None
SPECS = {
    'omitted': None, 'empty': [], 'one': [G], 'none': [N], 'two': [G, G], 'none, given': [N, G], 'given, none': [G, N], 'three': [G, G, G],
    'none, none, given': [N, N, G], 'given, none, given': [G, N, G],
}
KWSPECS = {'f(x, *, k=3.)': [{}, {'k': G}, {'k': N}], 'f(x, **q)': [{}, {'k': G}, {'k': G, 'l': N}, {'l': G}], 'f(x, y=1., **q)': [{'k': G}, {'l': G, 'k': N}]}


def containers(E, ds, k):
    if k == 0:
        return ds
    if k == 1:
        return tuple(ds)
    if k == 2:
        return iter(list(ds))
    return itertools.cycle(ds) if ds else itertools.repeat(None)


def wrapped(sig, spec, container, kwspec, first, second, result=None):
    def h(E):
        coll.setup(E)
        f = F(E, sig, result)
        ds = {}

        def give(label):
            d = ds[label] = D(E, 'd_%s' % label, label)
            d.seen = []
            return d.fun
        names = f.names
        sp = SPECS[spec]
        if sp is not None:
            dl = [give(names[i] if i < len(names) else i) if g else None for i, g in enumerate(sp)]
        kd = {n: give(n) if g else None for n, g in kwspec.items()}
        args = []
        if sp is not None:
            args.append(containers(E, dl, container))
        if kd:
            if sp is None:
                args.append([])
            args.append(kd)
        before = (list(dl) if sp is not None else None, dict(kd))
        r = run(E, core.wrap, f.fun, *args)
        if not E.ensure('wrap() succeeds', r[0] == 'ok', show(r)):
            return
        w = r[1]
        cyc = container == 3 and sp

        def deriv_of(label):
            if cyc:
                # an infinite iterator repeats the list
                i = names.index(label) if label in names else label
                if not isinstance(i, int):
                    return ds.get(i)
                i = i % len(sp)
                return ds.get(names[i] if i < len(names) else i)
            return ds.get(label)
        for n, pattern in enumerate((first, second)):
            if pattern is None:
                continue
            pos, kw = make_args(E, (tuple(k for k in pattern[0] if k != 'same'), pattern[1]))
            if 'same' in pattern[0]:
                pos = pos + [pos[0]]
            if n:
                # zero values (which have their own step) are those of the first call
                for v in nominal_args(pos, kw)[0] + tuple(nominal_args(pos, kw)[1].values()):
                    if isinstance(v, SNum):
                        E.assume(E.term(v) != 0)
            kept = (list(pos), dict(kw))
            check_call(E, w, f, deriv_of, pos, kw, 'call %d: ' % (n + 1))
            for d in ds.values():
                d.seen = list(d.calls)
            E.ensure('arguments of the caller unchanged', len(pos) == len(kept[0]) and all(a is b for a, b in zip(pos, kept[0])) and
                     set(kw) == set(kept[1]) and all(kw[k] is kept[1][k] for k in kw))
        if sp is not None and container == 0:
            E.ensure('list of derivatives unchanged', len(dl) == len(before[0]) and all(a is b for a, b in zip(dl, before[0])))
        E.ensure('keyword derivatives unchanged', set(kd) == set(before[1]) and all(kd[k] is before[1][k] for k in kd))
    return h


def histories(sig, spec, container, kwspec, every=False):
    """Pairs of call patterns (the second call follows the first one on the same wrapped function; all pairs if `every`)."""
    pats = CALLS[sig]

    def h(E):
        i = E.choose(len(pats), 'first call')
        if every:
            j = E.choose(len(pats), 'second call')
        else:
            j = (i, (i + 1) % len(pats))[E.choose(2, 'second call')]
        wrapped(sig, spec, container, kwspec, pats[i], pats[j] if j < len(pats) else None)(E)
    return h


def not_float(kind):
    """A result which is not float-like gives NotImplemented."""
    def h(E):
        coll.setup(E)
        o = {'opaque': Opaque('result', cls=object, attrs={'closed': True}), 'text': 'text', 'None': None, 'list': [1.], 'tuple': (1., 2.),
             'callable': SFunc('result', None)}[kind]
        f = F(E, 'f(x, y=2.5)', lambda E, v, b: o)
        r = run(E, core.wrap, f.fun)
        pos, kw = make_args(E, [(('asf',), {}), (('float', 'asf'), {}), (('float',), {'y': 'asf'})][E.choose(3, 'call')])
        got = run(E, r[1], *pos, **kw)
        E.ensure('NotImplemented', got[0] == 'ok' and got[1] is NotImplemented, show(got))
        E.cover('value')
    return h


def float_like(kind):
    """Numbers of other types are accepted as results; the nominal value is the result."""
    import fractions, decimal
    def h(E):
        coll.setup(E)
        f = F(E, 'f(x)', lambda E, v, b: {'int': lambda: SInt(z3.ToInt(v.t)), 'bool': lambda: SBool(v.t > 0), 'Fraction': lambda: fractions.Fraction(1, 3),
                                          'nan': lambda: NAN, 'inf': lambda: float('inf')}[kind]())
        d = D(E, 'd', 'x')
        r = run(E, core.wrap, f.fun, [d.fun])
        x, nx, lx = operand(E, 'x', 'asf')
        got = run(E, r[1], x)
        if E.ensure('no exception', got[0] == 'ok', show(got)) and E.ensure('type of the result', isinstance(got[1], core.AffineScalarFunc), show(got[1])):
            E.cover('value')
            v = f.calls[0][3]
            n = object.__getattribute__(got[1], '_nominal_value')
            if isinstance(v, SBool):
                E.ensure('nominal value', E.term(n) == E.term(v))
            else:
                same_num(E, 'nominal value', n, v if isinstance(v, (SInt, float)) and not isinstance(v, SInt) else (SFloat(E.term(v)) if isinstance(v, Sym) else float(v)))
            cs = coefficients(E, got[1])
            E.ensure('derivative', set(cs) == {id(lx)} and E.term(cs[id(lx)]).eq(d.calls[0][2].t))
    return h


def f_raises(exc):
    """Exceptions of f and of the derivatives reach the caller."""
    def h(E):
        coll.setup(E)

        def bad(E, v, b):
            raise exc('failure')
        f = F(E, 'f(x, y)', bad)
        r = run(E, core.wrap, f.fun)
        pos, kw = make_args(E, [(('asf', 'float'), {}), (('float',), {'y': 'asf'})][E.choose(2, 'call')])
        got = run(E, r[1], *pos, **kw)
        E.ensure('same exception', got[0] == 'exc' and type(got[1]) is exc, show(got))
        E.cover('value')
    return h


def numerical_everywhere(E):
    """NumericalDerivatives(f)[i] and partial_derivative(f, i)."""
    coll.setup(E)
    f = F(E, 'f(x, y)')
    a, b = E.real('a'), E.real('b')
    i = E.choose(4, 'reference')
    if i < 2:
        nd = run(E, core.NumericalDerivatives, f.fun)
        d = run(E, progs.subscript, nd[1], i)
    else:
        d = run(E, core.partial_derivative, f.fun, ('x', 'y')[i - 2])
    label = ('x', 'y')[i % 2]
    r = run(E, d[1], a, b) if i < 2 else run(E, d[1], x=a, y=b)
    if E.ensure('no exception', r[0] == 'ok', show(r)):
        E.cover('value')
        q = difference_quotient(E, f, 0, [('x', a), ('y', b)], label)
        if q is not None:
            E.ensure('symmetric difference quotient', E.term(r[1]) == q)


UNITS = {}
V = {'covers': ('value',)}
for _sig in SIGS:
    n = len(SIGS[_sig][0])
    for _sp in SPECS:
        if SPECS[_sp] is not None and not SIGS[_sig][2] and len(SPECS[_sp]) > max(n, 1):
            continue
        for _c in ((0, 3) if SPECS[_sp] else (0,)):
            for _kw in KWSPECS.get(_sig, [{}]):
                if _c == 3 and _kw:
                    continue
                name = '%s, derivatives: %s%s%s' % (_sig, _sp, ' (cycle)' if _c == 3 else '', ', keywords: %s' % ' '.join('%s=%s' % (k, 'given' if g else 'None') for k, g in _kw.items()) if _kw else '')
                UNITS[name] = (histories(_sig, _sp, _c, _kw), V)
                UNITS[name + ', all pairs of calls'] = (histories(_sig, _sp, _c, _kw, True), {'covers': ('value',), 'thorough': True})
for _c in (1, 2):
    for _sp in ('none, given', 'two'):
        UNITS['f(x, y), derivatives: %s (%s)' % (_sp, ('tuple', 'iterator')[_c - 1])] = (histories('f(x, y)', _sp, _c, {}), V)
for _k in ('opaque', 'text', 'None', 'list', 'tuple', 'callable'):
    UNITS['result: %s' % _k] = (not_float(_k), V)
for _k in ('int', 'bool', 'Fraction', 'nan', 'inf'):
    UNITS['result: %s' % _k] = (float_like(_k), V)
for _e in (ValueError, ZeroDivisionError, TypeError, KeyError, IndexError, StopIteration):
    UNITS['f raises %s' % _e.__name__] = (f_raises(_e), V)
UNITS['NumericalDerivatives, partial_derivative'] = (numerical_everywhere, V)
