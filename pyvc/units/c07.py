# -*- coding: utf-8 -*-
"""C07: without uncertain arguments, wrapped functions and umath functions are the original functions."""
import fractions, decimal
import numpy
from .wraps import *
from . import c04
import uncertainties
import uncertainties.umath as umath


class Err(Exception):
    pass


PATTERNS = {
    1: [(('float',), {}), (('opaque',), {}), (('int',), {}), (('nan',), {}), (('text',), {})],
    2: [(('float', 'float'), {}), (('opaque', 'int'), {}), (('inf', 'opaque'), {})],
    3: [(('float', 'opaque', 'int'), {})],
    4: [(('float', 'opaque', 'int', 'float'), {})],
    0: [((), {})],
}
KW = [{}, {'y': 'float'}, {'y': 'opaque'}, {'k': 'float'}, {'x': 'opaque'}, {'k': 'int', 'l': 'opaque'}]


def plain(sig, nderiv, outcome):
    """The wrapped function calls f once with the arguments themselves and returns its result (or raises its exception)."""
    def h(E):
        coll.setup(E)
        n = E.choose(5, 'number of arguments')
        kw = KW[E.choose(len(KW), 'keywords')]
        pat = PATTERNS[n][E.choose(len(PATTERNS[n]), 'arguments')]
        result = Opaque('result', cls=object)
        err = Err('failure')

        def res(E, v, b):
            if outcome == 'raises':
                raise err
            return {'opaque': result, 'float': v, 'None': None, 'NotImplemented': NotImplemented}[outcome]
        f = F(E, sig, res)
        ds = [D(E, 'd%d' % i, i) for i in range(nderiv)]
        r = run(E, core.wrap, f.fun, [d.fun for d in ds]) if nderiv is not None else None
        if not E.ensure('wrap() succeeds', r[0] == 'ok', show(r)):
            return
        pos, kws = make_args(E, (pat[0], kw))
        k0 = dict(kws)
        try:
            f.bind(pos, kws)
            if sig.startswith('builtin') and kws:
                raise TypeError
            ok = True
        except TypeError:
            ok = False
        got = run(E, r[1], *pos, **kws)
        if not ok:
            E.ensure('TypeError for a bad call', got[0] == 'exc' and isinstance(got[1], TypeError), show(got))
            E.cover('bad call')
            return
        E.ensure('f is called once', len(f.calls) == (0 if outcome == 'raises' else 1), '%d calls' % len(f.calls))
        for b, a, k, v in f.calls:
            E.ensure('f receives the arguments themselves', len(a) == len(pos) and all(x is y for x, y in zip(a, pos)) and
                     set(k) == set(k0) and all(k[n] is k0[n] for n in k))
        E.ensure('no derivative is evaluated', not any(d.calls for d in ds))
        if outcome == 'raises':
            E.ensure('the exception of f', got[0] == 'exc' and got[1] is err, show(got))
        else:
            E.ensure('the result of f', got[0] == 'ok' and got[1] is f.calls[0][3], show(got))
        E.cover('value')
    return h


VALUES = {
    'float': lambda E: E.real('x'), 'int': lambda E: E.integer('i'), 'opaque': lambda E: Opaque('object', attrs={'closed': True}), 'nan': lambda E: NAN,
    'inf': lambda E: float('inf'), '-inf': lambda E: float('-inf'), 'text': lambda E: 'text', 'None': lambda E: None, 'True': lambda E: True,
    'Fraction': lambda E: fractions.Fraction(1, 3), 'Decimal': lambda E: decimal.Decimal('0.25'), 'numpy float': lambda E: numpy.float64(.5),
    'numpy int': lambda E: numpy.int64(1), 'complex': lambda E: 1j, 'list': lambda E: [1.], 'zero': lambda E: 0., 'one': lambda E: 1, 'half': lambda E: .5,
}


def compare(E, got, want):
    if want[0] == 'exc':
        E.cover('exception')
        return E.ensure('same exception', got[0] == 'exc' and type(got[1]) is type(want[1]), '%s instead of %s' % (show(got), show(want)))
    if E.ensure('no exception', got[0] == 'ok', show(got)):
        E.cover('value')
        c04.same_result(E, 'result', got[1], want[1])


def umath_plain(name, arity):
    def h(E):
        coll.setup(E)
        c04.numeric_contracts(E)
        f, m = getattr(umath, name), getattr(math, name)
        ks = list(VALUES)
        kinds = []
        for i in range(arity):
            if i:
                few = ['float', 'int', 'opaque', 'zero', 'one', 'text', 'half']
                kinds.append(few[E.choose(len(few), 'kind')])
            else:
                kinds.append(ks[E.choose(len(ks), 'kind')])
        args = [VALUES[k](E) for k in kinds]
        if any(isinstance(a, float) and not isinstance(a, Sym) and not finite_const(a) for a in args) and any(isinstance(a, Sym) for a in args):
            return      # (not within the models: see the bounded layer)
        want = c04.nominal(E, m, args)
        compare(E, run(E, f, *args), want)
    return h


def umath_fsum(E):
    coll.setup(E)
    args = [VALUES[('float', 'int', 'opaque', 'half')[E.choose(4, 'kind')]](E) for _ in range(E.choose(4, 'length'))]
    if E.choose(2, 'container'):
        args = tuple(args)
    want = c04.nominal(E, math.fsum, [args])
    compare(E, run(E, umath.fsum, args), want)


def helpers(E):
    coll.setup(E)
    for k in VALUES:
        v = VALUES[k](E)
        r = run(E, uncertainties.nominal_value, v)
        E.ensure('nominal_value of %s' % k, r[0] == 'ok' and r[1] is v, show(r))
        r = run(E, uncertainties.std_dev, v)
        E.ensure('std_dev of %s' % k, r[0] == 'ok' and type(r[1]) is float and r[1] == 0, show(r))
    E.cover('value')


UNITS = {}
V = {'covers': ('value',)}
for _sig in SIGS:
    for _o in ('opaque', 'float', 'raises', 'None', 'NotImplemented'):
        UNITS['%s, %s' % (_sig, _o)] = (plain(_sig, 1 if _o != 'float' else 0, _o), V)
for _n in sorted(set(c04.SPEC) | {'gamma', 'lgamma'}) + list(c04.LOCALLY_CST) + ['modf', 'frexp', 'factorial']:
    UNITS['umath.%s of a plain argument' % _n] = (umath_plain(_n, 1), V)
for _n in sorted(c04.SPEC2) + ['fmod', 'ldexp']:
    UNITS['umath.%s of two plain arguments' % _n] = (umath_plain(_n, 2), V)
for _n in ('sin', 'sqrt', 'ceil', 'modf', 'frexp', 'gamma', 'isnan'):
    UNITS['umath.%s without argument' % _n] = (umath_plain(_n, 0), {})
    UNITS['umath.%s of too many arguments' % _n] = (umath_plain(_n, 2), {})
UNITS['umath.fsum'] = (umath_fsum, V)
UNITS['nominal_value, std_dev'] = (helpers, V)
