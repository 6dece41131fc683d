# -*- coding: utf-8 -*-
"""C04: contracts of the functions of uncertainties.umath.

For every function and argument kind: the nominal value is what the math function gives (or the same exception class),
and the linear part is  SUM d_i * lin(x_i)  with the partial derivatives of the table SPEC (independent of /repo).
"""
from .common import *
from .c03 import check_result, UNSPEC
import uncertainties.umath as umath
import uncertainties.umath_core as umath_core


def S(E, n, *a):
    return E.fn(n, *a)


def sqrt_t(E, t):
    """sqrt of a term that is known to be >= 0 on this path."""
    return E.fn('sqrt', t)


def d1(f):
    return lambda E, x: [f(E, x)]


def inv_sqrt(arg, sign=1):
    def f(E, x):
        a = arg(x)
        if not E.decide(a > 0):
            return NAN
        return real(sign) / sqrt_t(E, a)
    return f


def inv(arg):
    def f(E, x):
        a = arg(x)
        return NAN if E.decide(a == 0) else real(1) / a
    return f


def tan_d(E, x):
    t = S(E, 'tan', x)
    return 1 + t * t


def tanh_d(E, x):
    t = S(E, 'tanh', x)
    return 1 - t * t


LN10 = rv(math.log(10))
ERF = rv(2 / math.sqrt(math.pi))


def fabs_d(E, x):
    return UNSPEC if E.decide(x == 0) else (real(1) if E.decide(x > 0) else real(-1))


def copysign_d(E, x, y):
    if E.decide(x == 0) or E.decide(y == 0):   # kink in x; the sign of a zero y is not represented
        return [UNSPEC, UNSPEC]
    return [z3.If((x > 0) == (y > 0), real(1), real(-1)), real(0)]


def hypot_d(E, x, y):
    h = E.fn('sqrt', x * x + y * y)
    if E.decide(h == 0):
        return [NAN, NAN]
    return [x / h, y / h]


def atan2_d(E, y, x):
    r = x * x + y * y
    if E.decide(r == 0):
        return [NAN, NAN]
    return [x / r, -y / r]


def log2_d(E, x, b):
    lx, lb = S(E, 'log', x), S(E, 'log', b)
    return [1 / (x * lb), -lx / (b * lb * lb)]


def pow_d(E, x, y):
    if E.decide(y == 0):
        dx = real(0)
    elif E.decide(x == 0):
        if E.decide(z3.IsInt(y)):
            dx = real(1) if E.decide(y == 1) else real(0)
        else:
            dx = NAN if E.decide(y < 1) else UNSPEC
    else:
        dx = y * E.float_pow(x, y - 1).t
    if E.decide(x > 0):
        dy = S(E, 'log', x) * E.float_pow(x, y).t
    elif E.decide(x == 0) and E.decide(y > 0):
        dy = real(0)
    else:
        dy = NAN
    return [dx, dy]


SPEC = {
    'acos': d1(inv_sqrt(lambda x: 1 - x * x, -1)), 'acosh': d1(inv_sqrt(lambda x: x * x - 1)), 'asin': d1(inv_sqrt(lambda x: 1 - x * x)),
    'asinh': d1(inv_sqrt(lambda x: 1 + x * x)), 'atan': d1(inv(lambda x: 1 + x * x)), 'atanh': d1(inv(lambda x: 1 - x * x)),
    'cos': d1(lambda E, x: -S(E, 'sin', x)), 'sin': d1(lambda E, x: S(E, 'cos', x)), 'tan': d1(tan_d),
    'cosh': d1(lambda E, x: S(E, 'sinh', x)), 'sinh': d1(lambda E, x: S(E, 'cosh', x)), 'tanh': d1(tanh_d),
    'degrees': d1(lambda E, x: rv(180 / math.pi)), 'radians': d1(lambda E, x: rv(math.pi / 180)),
    'erf': d1(lambda E, x: ERF * S(E, 'exp', -x * x)), 'erfc': d1(lambda E, x: -ERF * S(E, 'exp', -x * x)),
    'exp': d1(lambda E, x: S(E, 'exp', x)), 'expm1': d1(lambda E, x: S(E, 'exp', x)), 'fabs': d1(fabs_d),
    'log': d1(inv(lambda x: x)), 'log10': d1(inv(lambda x: x * LN10)), 'log1p': d1(inv(lambda x: 1 + x)),
    'sqrt': d1(lambda E, x: NAN if E.decide(x == 0) else 1 / (2 * sqrt_t(E, x))),
}
SPEC2 = {'atan2': atan2_d, 'copysign': copysign_d, 'hypot': hypot_d, 'log': log2_d, 'pow': pow_d}
# functions of Python's math module whose derivatives uncertainties knows
NUMERIC = {'fmod': 2, 'gamma': 1, 'lgamma': 1}
LOCALLY_CST = ('ceil', 'floor', 'isinf', 'isnan', 'trunc')
OTHER = ('factorial', 'fsum', 'modf', 'ldexp', 'frexp')


def numeric_contracts(E):
    """math.fmod, gamma and lgamma are functions of their arguments (uninterpreted), recorded."""
    E.numcalls = []
    for n in NUMERIC:
        def m(E, a, k, n=n):
            if k or len(a) != NUMERIC[n]:
                raise TypeError('%s: wrong arguments' % n)
            xs = [E.to_float(x, 'math') for x in a]
            if not any(isinstance(x, Sym) for x in xs):
                return getattr(math, n)(*xs)
            ts = [z3.simplify(E.term(x)) for x in xs]
            key = (n,) + tuple(t.get_id() for t in ts)
            if key not in E.numfault:
                if n == 'fmod':
                    bad = ts[1] == 0
                else:
                    bad = z3.And(z3.IsInt(ts[0]), ts[0] <= 0)
                E.numfault[key] = (E.decide(bad), ts)
            r = SFloat(E.fn(n, *ts))
            E.numcalls.append((n, ts, r))
            if E.numfault[key][0]:
                raise ValueError('math domain error')
            if E.faults:
                E.fault(n, *ts)
            return r
        E.models[getattr(math, n)] = m
    E.numfault = {}


def nominal(E, f, args):
    try:
        return ('ok', E.call(f, args, {}))
    except EN.EngineSignal:
        raise
    except Exception as e:
        interp.guard(e)
        return ('exc', e)


def same_result(E, label, got, want):
    """Both are results of the same kind (numbers, tuples of numbers)."""
    if isinstance(want, tuple):
        if E.ensure(label + ' (tuple)', isinstance(got, tuple) and len(got) == len(want), show(got)):
            for g, w in zip(got, want):
                same_result(E, label, g, w)
        return
    E.ensure(label + ' (type)', E.type_of(got) is E.type_of(want), '%s instead of %s' % (show(got), show(want)))
    same_num(E, label, got, want)


def func(name, kinds, same=False):
    def h(E):
        coll.setup(E)
        numeric_contracts(E)
        f, m = getattr(umath, name), getattr(math, name)
        xs, ns, ls = [], [], []
        for i, k in enumerate(kinds):
            if same and i:
                x, n, l = xs[0], ns[0], ls[0]
            else:
                x, n, l = operand(E, 'xyz'[i], k)
            xs.append(x), ns.append(n), ls.append(l)
        fr = Frame(E, *xs)
        want = nominal(E, m, ns)
        got = run(E, f, *xs)
        if want[0] == 'exc':
            E.cover('exception')
            E.ensure('same exception as math.%s' % name, got[0] == 'exc' and type(got[1]) is type(want[1]), '%s instead of %s' % (show(got), show(want)))
        elif E.ensure('no exception', got[0] == 'ok', show(got)):
            E.cover('value')
            if name in LOCALLY_CST:
                same_result(E, 'plain result', got[1], want[1])
            else:
                ts = [E.term(n) for n in ns]
                if name in NUMERIC:
                    ds = numeric(E, name, ts, ls)
                else:
                    ds = (SPEC2 if len(kinds) == 2 else SPEC)[name](E, *ts)
                if same:
                    d = UNSPEC if any(x is UNSPEC for x in ds) else NAN if any(is_nan(x) for x in ds) else ds[0] + ds[1]
                    parts = [(ls[0], d)]
                else:
                    parts = [(l, d) for l, d in zip(ls, ds) if l is not None]
                check_result(E, got[1], E.to_float(want[1]), parts)
        fr.check()
    return h


def numeric(E, name, ts, ls):
    """The derivatives are symmetric difference quotients of math.<name>."""
    ds = []
    for i, l in enumerate(ls):
        if l is None:
            ds.append(None)
            continue
        # the evaluations where only argument i moves
        moved = []
        for n, us, r in E.numcalls:
            if n == name and all(u.eq(t) for j, (u, t) in enumerate(zip(us, ts)) if j != i) and not us[i].eq(ts[i]):
                moved.append((us, r))
        fault = any(b for k, (b, us) in E.numfault.items() if k[0] == name and any(us is m[0] or all(a.eq(c) for a, c in zip(us, m[0])) for m in moved))
        if fault:
            ds.append(NAN)
            continue
        if len(moved) != 2:
            raise Unsupported('numerical derivative with %d evaluations' % len(moved))
        (up, fp), (um, fm) = moved
        hp, hm = up[i] - ts[i], um[i] - ts[i]
        a = z3.If(ts[i] >= 0, ts[i], -ts[i])
        small = rv(1e-5)
        E.ensure('step of the numerical derivative %d' % i, z3.And(hp == -hm, hp != 0, z3.If(hp >= 0, hp, -hp) <= small * z3.If(a > 1, a, real(1))))
        ds.append((fp.t - fm.t) / (hp - hm))
    return ds


def fsum(kinds):
    def h(E):
        coll.setup(E)
        ops_ = [operand(E, 'x%d' % i, k) for i, k in enumerate(kinds)]
        fr = Frame(E, *[o[0] for o in ops_])
        arg = [o[0] for o in ops_]
        if E.choose(2, 'tuple'):
            arg = tuple(arg)
        got = run(E, umath.fsum, arg)
        if E.ensure('no exception', got[0] == 'ok', show(got)):
            E.cover('value')
            tot = sum((E.term(o[1]) for o in ops_), real(0))
            check_result(E, got[1], SFloat(tot), [(o[2], real(1)) for o in ops_ if o[2] is not None])
        if isinstance(arg, list):
            E.ensure('argument unchanged', len(arg) == len(ops_) and all(a is o[0] for a, o in zip(arg, ops_)))
        fr.check()
    return h


def modf(kind):
    def h(E):
        coll.setup(E)
        x, n, l = operand(E, 'x', kind)
        fr = Frame(E, x)
        want = nominal(E, math.modf, [n])[1]
        got = run(E, umath.modf, x)
        if E.ensure('no exception', got[0] == 'ok', show(got)) and E.ensure('pair', isinstance(got[1], tuple) and len(got[1]) == 2):
            E.cover('value')
            check_result(E, got[1][0], want[0], [(l, real(1))])
            same_result(E, 'integer part', got[1][1], want[1])
        fr.check()
    return h


def ldexp(kind, ik):
    def h(E):
        coll.setup(E)
        x, n, l = operand(E, 'x', kind)
        i = E.integer('i') if ik == 'int' else ik
        fr = Frame(E, x)
        want = nominal(E, math.ldexp, [n, i])
        got = run(E, umath.ldexp, x, i)
        if want[0] == 'exc':
            E.ensure('same exception', got[0] == 'exc' and type(got[1]) is type(want[1]), show(got))
        elif E.ensure('no exception', got[0] == 'ok', show(got)):
            E.cover('value')
            it = E.iterm(i)
            p = E.pow2(it)
            # 2**i is not a float for i >= 1024
            d = NAN if E.decide(it >= 1024) else p
            check_result(E, got[1], want[1], [(l, d)])
        fr.check()
    return h


def frexp(kind):
    def h(E):
        coll.setup(E)
        x, n, l = operand(E, 'x', kind)
        fr = Frame(E, x)
        want = nominal(E, math.frexp, [n])[1]
        got = run(E, umath.frexp, x)
        if E.ensure('no exception', got[0] == 'ok', show(got)) and E.ensure('pair', isinstance(got[1], tuple) and len(got[1]) == 2):
            E.cover('value')
            m, e = got[1]
            # mantissa * 2**exponent == value, 1/2 <= |mantissa| < 1 (or both 0)
            me = E.iterm(e) if E.is_int_like(e) else None
            if E.ensure('exponent is an int', me is not None, show(e)) and E.ensure('type', isinstance(m, core.AffineScalarFunc), show(m)):
                mt = E.term(object.__getattribute__(m, '_nominal_value'))
                am = z3.If(mt >= 0, mt, -mt)
                t = E.term(n)
                E.ensure('mantissa * 2**exponent', mt * E.pow2(me) == t)
                E.ensure('range of the mantissa', z3.Or(z3.And(mt == 0, me == 0), z3.And(am >= rv(.5), am < 1)))
                cs = coefficients(E, m)
                E.ensure('no other dependence', all(k == id(l) for k in cs))
                E.ensure('derivative', E.term(cs.get(id(l), 0.)) == E.pow2(-me))
        fr.check()
    return h


def names(E):
    for n in sorted(set(SPEC) | set(SPEC2) | set(NUMERIC) | set(LOCALLY_CST) | set(OTHER)):
        E.ensure('umath.%s exists' % n, callable(getattr(umath, n, None)))
        E.ensure('umath.%s is public' % n, n in getattr(umath, '__all__', ()))
    E.cover('value')


UNITS = {'names': (names, {'covers': ('value',)})}
C = {'covers': ('value',)}
for _n in sorted(SPEC) + ['gamma', 'lgamma']:
    for _k in ('var', 'asf'):
        UNITS['%s(%s)' % (_n, _k)] = (func(_n, (_k,)), C)
for _n in sorted(SPEC2) + ['fmod']:
    for _ks in (('asf', 'asf'), ('var', 'var'), ('var', 'float'), ('float', 'asf'), ('asf', 'int'), ('int', 'var')):
        UNITS['%s(%s, %s)' % ((_n,) + _ks)] = (func(_n, _ks), C)
    if _n != 'fmod':
        UNITS['%s(x, x)' % _n] = (func(_n, ('asf', 'asf'), True), C)
for _n in LOCALLY_CST:
    for _k in ('var', 'asf'):
        UNITS['%s(%s)' % (_n, _k)] = (func(_n, (_k,)), C)
for _k in ('var', 'asf'):
    UNITS['modf(%s)' % _k] = (modf(_k), C)
    UNITS['frexp(%s)' % _k] = (frexp(_k), C)
    UNITS['ldexp(%s, int)' % _k] = (ldexp(_k, 'int'), C)
for _ks in (('asf',), ('asf', 'var'), ('float', 'asf', 'int'), ('var', 'asf', 'asf', 'float')):
    UNITS['fsum(%s)' % ', '.join(_ks)] = (fsum(_ks), C)
