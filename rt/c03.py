# -*- coding: utf-8 -*-
"""C03: operators, nominal value and derivatives."""
from .base import *
from . import spec, nums
from uncertainties import ufloat, UFloat

IOPS = {'+': 'a += b', '-': 'a -= b', '*': 'a *= b', '/': 'a /= b', '//': 'a //= b', '%': 'a %= b', '**': 'a **= b'}
_C = {k: compile(v, '<c03>', 'exec') for k, v in IOPS.items()}


def attempt(f, *a):
    try:
        return f(*a), None
    except (ValueError, ZeroDivisionError, OverflowError) as e:
        return None, e


def mk(o):
    return ufloat(o[1], o[2]) if o[0] == 'u' else o[1]


def dcheck(what, got, d, name, args):
    """got: float derivative; d: mpf, UNDEF or UNSPEC."""
    if d is spec.UNSPEC:
        return None
    if d is spec.UNDEF:
        return None if math.isnan(got) else '%s: derivative %r where it is undefined' % (what, got)
    try:
        d = float(d)
    except OverflowError:
        d = math.inf if d > 0 else -math.inf
    if math.isinf(d) or abs(d) > 1e290 or (d and abs(d) < 1e-290):
        return None
    if name in spec.NUMERIC:
        tol = spec.tol_numeric(name, args, d)
    else:
        tol = spec.cond(name, args) * abs(d) + spec.absol(name, args)
    if not abs(got - d) <= tol:   # NaN fails
        return '%s: derivative %r instead of %r (tolerance %g)' % (what, got, d, tol)


def check(case):
    if case[0] == 'un':
        _, name, v, s = case
        x = ufloat(v, s)
        r = {'neg': lambda: -x, 'pos': lambda: +x, 'abs': lambda: abs(x), 'trunc': lambda: math.trunc(x)}
        f = {'neg': lambda: -v, 'pos': lambda: +v, 'abs': lambda: abs(v), 'trunc': lambda: math.trunc(v)}[name]
        res, e1 = attempt(r[name])
        exp, e2 = attempt(f)
        if (e1 is None) != (e2 is None) or e1 is not None and type(e1) is not type(e2):
            return 'exception %r instead of %r' % (e1, e2)
        if e1 is not None:
            return None
        if not spec_same(res, exp):
            return 'nominal value %r instead of %r' % (res, exp)
        if isinstance(res, UFloat):
            got = res.derivatives.get(x, 0.)
        else:
            got = 0.
            if name != 'trunc':
                return 'result without uncertainty: %r' % res
        if math.isnan(v):
            return None
        return dcheck(name, got, spec.partials(name, [v])[0] if not math.isinf(v) else
                      {'neg': -1, 'pos': 1, 'abs': math.copysign(1, v), 'trunc': 0}[name], name, [v])
    form, op, l, r = case
    a, b = mk(l), mk(r)
    x, y = l[1], r[1]
    if form == 'inplace':
        def go():
            ns = {'a': a, 'b': b}
            exec(_C[op], ns)
            return ns['a']
    else:
        def go():
            return spec.py_op(op, a, b)

    def ref():
        v = spec.py_op(op, float(x), float(y))
        if isinstance(v, complex):
            raise ValueError('complex')
        return v
    res, e1 = attempt(go)
    exp, e2 = attempt(ref)
    if (e1 is None) != (e2 is None) or e1 is not None and type(e1) is not type(e2):
        return 'exception %r instead of %r (value %r)' % (e1, e2, exp)
    if e1 is not None:
        return None
    if not isinstance(res, UFloat):
        return 'result without uncertainty: %r' % (res,)
    if not spec_same(res, exp):
        return 'nominal value %r instead of %r' % (res.nominal_value, exp)
    mine = [v for v in (a, b) if isinstance(v, UFloat)]
    for v in res.derivatives:
        if not any(v is m for m in mine):
            return 'unknown variable in the result'
    if form == 'inplace' and isinstance(a, UFloat) and (
            not same(a.nominal_value, float(x)) or not same(a.std_dev, l[2]) or dict(a.derivatives) != {a: 1.0}):
        return 'in-place operator changed its operand'
    if any(math.isnan(v) or math.isinf(v) for v in (float(x), float(y))):
        return None
    if any(v and not 1e-60 < abs(v) < 1e60 for v in (float(x), float(y))):
        return None
    ps = spec.partials(op, [float(x), float(y)])
    for o, v, d, side in ((l, a, ps[0], 'left'), (r, b, ps[1], 'right')):
        if o[0] == 'u':
            got = res.derivatives.get(v, 0.)
            e = dcheck('%s operand of %s' % (side, op), got, d, op, [float(x), float(y)])
            if e:
                return e


def spec_same(res, exp):
    n = res.nominal_value if isinstance(res, UFloat) else res
    if isinstance(res, UFloat) and type(n) is not float:
        return False
    return same(n, float(exp)) and (n != n or math.copysign(1, n) == math.copysign(1, float(exp)))


def operand(r, op, side):
    k = r.random()
    v = nums.anyf(r) if r.random() < .15 else (nums.fl(r) if r.random() < .8 else nums.fl(r, -40, 40))
    if op == '**' and r.random() < .5:
        v = float(r.randint(-4, 5))
    if k < .6:
        return ('u', v, nums.sd(r))
    if k < .8:
        return ('p', v)
    return ('p', r.randint(-9, 9))


def gen(r):
    if r.random() < .12:
        return ('un', r.choice(['neg', 'pos', 'abs', 'trunc']), nums.anyf(r) if r.random() < .2 else nums.fl(r), nums.sd(r))
    op = r.choice(spec.OPS)
    while True:
        a, b = operand(r, op, 0), operand(r, op, 1)
        if a[0] == 'u' or b[0] == 'u':
            return (r.choice(['bin', 'bin', 'inplace']), op, a, b)


def _fixed():
    vals = [0., -0., 1., -1., 2., -2., .5, -.5, 3., 7.25, -7.25, 1e10, 1e200, 1e-200, -1e155, nan, inf, -inf]
    out = []
    for op in spec.OPS:
        for x in vals:
            for y in vals:
                out.append(('bin', op, ('u', x, .1), ('u', y, .1)))
                out.append(('bin', op, ('u', x, .1), ('p', y)))
                out.append(('bin', op, ('p', x), ('u', y, .1)))
        for form in ('bin', 'inplace'):
            for x, y in ((7.5, 2), (7.5, -2), (-7, 2.5), (3, .7), (2, 3)):
                for l in (('u', float(x), .1), ('u', float(x), 0.), ('p', x)):
                    for r_ in (('u', float(y), .1), ('u', float(y), 0.), ('p', y)):
                        if l[0] == 'u' or r_[0] == 'u':
                            out.append((form, op, l, r_))
    for n in ('neg', 'pos', 'abs', 'trunc'):
        for x in vals:
            out.append(('un', n, x, .1))
    return out


FIXED = _fixed()
