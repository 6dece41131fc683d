# -*- coding: utf-8 -*-
"""C05: operators and umath functions succeed wherever the float function does; undefined or incomputable derivatives are NaN.

Library calls (exp, sinh, cosh, gamma, lgamma, pow, **, hypot) may overflow and computed denominators may underflow at any
point (fault injection: both outcomes are explored at every such call).  The nominal computation is assumed to succeed; then
the operation must succeed, and every derivative is either the mathematical one or, if it is undefined or a fault occurred
in its computation, NaN.
"""
from .common import *
from . import c03, c04
from .c03 import UNSPEC
import uncertainties.umath as umath


def derivative(E, i, got, d, faulted):
    if d is UNSPEC:
        return
    if is_nan(d):
        E.cover('undefined')
        return E.ensure('derivative %d is NaN where undefined' % i, is_nan(got), 'got %r' % (got,))
    if is_nan(got):
        if faulted:
            E.cover('fault')
        return E.ensure('derivative %d is computed' % i, faulted, 'NaN without a reason')
    if E.ensure('derivative %d is a finite number' % i, is_num(got) and (isinstance(got, Sym) or finite_const(got)), show(got)):
        E.ensure('derivative %d' % i, E.term(got) == d)


def check(E, res, nom, parts, faulted):
    if not E.ensure('type of the result', isinstance(res, core.AffineScalarFunc), show(res)):
        return
    same_num(E, 'nominal value', object.__getattribute__(res, '_nominal_value'), nom)
    cs = coefficients(E, res)
    ids = set(id(lc) for lc, d in parts)
    for k in cs:
        E.ensure('no other dependence', k in ids or E.decide(E.term(cs[k]) == 0), 'coefficient %r' % (cs[k],))
    for i, (lc, d) in enumerate(parts):
        derivative(E, i, cs.get(id(lc), 0.), d, faulted)


def combine(parts, same):
    if not same:
        return [(l, d) for l, d in parts if l is not None]
    ds = [d for l, d in parts]
    d = UNSPEC if any(x is UNSPEC for x in ds) else NAN if any(is_nan(x) for x in ds) else sum(ds[1:], ds[0])
    return [(parts[0][0], d)]


def func(name, kinds, same=False):
    def h(E):
        coll.setup(E)
        E.faults = True
        c04.numeric_contracts(E)
        f, m = getattr(umath, name), getattr(math, name)
        xs, ns, ls = [], [], []
        for i, k in enumerate(kinds):
            x, n, l = (xs[0], ns[0], ls[0]) if same and i else operand(E, 'xyz'[i], k)
            xs.append(x), ns.append(n), ls.append(l)
        want = c04.nominal(E, m, ns)
        n0 = E.nfaults
        got = run(E, f, *xs)
        faulted = E.nfaults > n0
        if want[0] == 'exc':
            return
        if not E.ensure('no exception', got[0] == 'ok', show(got)):
            return
        E.cover('value')
        if name in c04.LOCALLY_CST:
            return
        E.faults = False
        if not all(isinstance(n, SNum) for n in ns):
            E.ensure('type of the result', isinstance(got[1], core.AffineScalarFunc), show(got[1]))
            same_num(E, 'nominal value', object.__getattribute__(got[1], '_nominal_value'), E.to_float(want[1]))
            return
        ts = [E.term(n) for n in ns]
        if name in c04.NUMERIC:
            if faulted or any(v for v, _ in E.numfault.values()):
                ds = [NAN if l is None or is_nan(coefficients(E, got[1]).get(id(l))) else UNSPEC for l in ls]
                faulted = True
            else:
                ds = c04.numeric(E, name, ts, ls)
        else:
            ds = (c04.SPEC2 if len(kinds) == 2 else c04.SPEC)[name](E, *ts)
        check(E, got[1], E.to_float(want[1]), combine(list(zip(ls, ds)), same), faulted)
    return h


def binary(op, lk, rk, inplace=False):
    def h(E):
        coll.setup(E)
        E.faults = True
        x, nx, lx = operand(E, 'x', lk)
        y, ny, ly = (x, nx, lx) if rk == 'same' else operand(E, 'y', rk)
        want = c04.nominal(E, c03_float(op), [nx, ny])
        n0 = E.nfaults
        got = run(E, c03.INPLACE[op], x, y) if inplace else c03.op_run(E, op, x, y)
        faulted = E.nfaults > n0
        if want[0] == 'exc' or isinstance(want[1], SComplex):
            return
        if not E.ensure('no exception', got[0] == 'ok', show(got)):
            return
        E.cover('value')
        E.faults = False
        if all(isinstance(n, SNum) for n in (nx, ny)):
            dx, dy = c03.spec(E, op, E.term(nx), E.term(ny))
            check(E, got[1], want[1], combine([(lx, dx), (ly, dy)], rk == 'same'), faulted)
        else:
            E.ensure('type of the result', isinstance(got[1], core.AffineScalarFunc), show(got[1]))
            same_num(E, 'nominal value', object.__getattribute__(got[1], '_nominal_value'), want[1])
            if op == '**':
                special_powers(E, got[1], nx, ny, lx, ly)
    return h


def special_powers(E, res, nx, ny, lx, ly):
    """Documented special cases when the other number is not finite."""
    cs = coefficients(E, res)
    if lx is not None and lx is not ly and isinstance(ny, SNum) and E.decide(E.term(ny) == 0):
        g = cs.get(id(lx), 0.)
        E.ensure('derivative 0 with respect to x where y is 0', not is_nan(g) and E.check(E.term(g) != 0) == z3.unsat, show(g))


def c03_float(op):
    f = SFunc('float %s' % op, lambda E, a, k: E.float_slot(float, '__%s__' % ops.BINOPS[op][0], (E.to_float(a[0]), a[1]), {}))
    return f


def unary(name):
    prog = {'neg': progs.neg, 'pos': progs.pos, 'abs': progs.absolute, 'trunc': progs.trunc}[name]

    def h(E):
        coll.setup(E)
        x, nx, lx = operand(E, 'x', ('any', 'anyvar')[E.choose(2, 'kind')])
        want = c04.nominal(E, prog, [nx])
        got = run(E, prog, x)
        if want[0] == 'ok' and E.ensure('no exception', got[0] == 'ok', show(got)):
            E.cover('value')
    return h


def undefined_component(name, at):
    """The uncertainty is NaN if the variable has a non-zero uncertainty, and 0 if it has none."""
    def h(E):
        coll.setup(E)
        x = E.v0
        object.__setattr__(x, '_nominal_value', E.real('x'))
        E.assume(x._nominal_value.t == rv(at))
        got = run(E, name if callable(name) else getattr(umath, name), x)
        if not E.ensure('no exception', got[0] == 'ok', show(got)):
            return
        zero = E.decide(E.term(x._std_dev) == 0)
        ec = run(E, progs.error_components, got[1])
        if E.ensure('no exception', ec[0] == 'ok', show(ec)):
            c = ec[1].get(x)
            if zero:
                E.ensure('component 0', is_num(c) and not is_nan(c) and E.check(E.term(c) != 0) == z3.unsat, show(c))
                E.cover('zero')
            else:
                E.ensure('component NaN', is_nan(c), show(c))
                E.cover('value')
        r = run(E, progs.get_std_dev, got[1])
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            if zero:
                E.ensure('std_dev 0', is_num(r[1]) and not is_nan(r[1]) and E.check(E.term(r[1]) != 0) == z3.unsat, show(r[1]))
            else:
                E.ensure('std_dev NaN', is_nan(r[1]), show(r[1]))
    return h


UNITS = {}
V = {'covers': ('value',)}
for _n in sorted(c04.SPEC) + ['gamma', 'lgamma'] + list(c04.LOCALLY_CST):
    for _k in ('asf', 'any', 'anyvar'):
        UNITS['%s(%s)' % (_n, _k)] = (func(_n, (_k,)), V)
for _n in sorted(c04.SPEC2) + ['fmod']:
    for _ks in (('asf', 'asf'), ('var', 'float'), ('float', 'asf'), ('asf', 'int'), ('int', 'var')):
        UNITS['%s(%s, %s)' % ((_n,) + _ks)] = (func(_n, _ks), V)
    if _n != 'fmod':
        UNITS['%s(x, x)' % _n] = (func(_n, ('asf', 'asf'), True), V)
for _op in c03.OPS:
    for _l, _r in (('asf', 'asf'), ('asf', 'float'), ('float', 'asf'), ('asf', 'int'), ('int', 'asf'), ('asf', 'same'), ('var', 'var')):
        UNITS['%s %s %s' % (_l, _op, _r)] = (binary(_op, _l, _r), V)
    for _l, _r in (('any', 'any'), ('any', 'anyfloat'), ('anyfloat', 'any')):
        UNITS['%s %s %s' % (_l, _op, _r)] = (binary(_op, _l, _r), V)
    UNITS['asf %s= asf' % _op] = (binary(_op, 'asf', 'asf', True), V)
for _n in ('neg', 'pos', 'abs', 'trunc'):
    UNITS[_n] = (unary(_n), V)
Z = {'covers': ('value', 'zero')}
for _n, _a in (('sqrt', 0), ('asin', 1), ('acos', -1), ('acosh', 1)):
    UNITS['uncertainty of %s at %d' % (_n, _a)] = (undefined_component(_n, _a), Z)
UNITS['uncertainty of x**0.5 at 0'] = (undefined_component(progs.square_root, 0), Z)
