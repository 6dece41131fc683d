# -*- coding: utf-8 -*-
"""Independent specification of the partial derivatives of operators and math functions (mpmath, 40 digits).

partials(name, args): list with, for each argument, an mpf, or UNDEF (the derivative does not exist), or
UNSPEC (kinks, jumps, one-sided derivatives: left unspecified).
"""
import math
from fractions import Fraction
from .base import *
import mpmath
from mpmath import mpf
mpmath.mp.dps = 40


class _S(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


UNDEF, UNSPEC = _S('UNDEF'), _S('UNSPEC')
M = mpmath

ONE_ARG = ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atanh', 'cos', 'cosh', 'degrees', 'erf', 'erfc', 'exp',
           'expm1', 'fabs', 'gamma', 'lgamma', 'log', 'log10', 'log1p', 'radians', 'sin', 'sinh', 'sqrt', 'tan',
           'tanh']
TWO_ARG = ['atan2', 'copysign', 'fmod', 'hypot', 'log', 'pow']
LOCALLY_CST = ['ceil', 'floor', 'trunc', 'isinf', 'isnan']
NUMERIC = {'gamma', 'lgamma', 'fmod'}
OPS = ['+', '-', '*', '/', '//', '%', '**']


def _near_int(q, tol=mpf('1e-6')):
    return abs(q - M.nint(q)) < tol * max(1, abs(q))


def pow_partials(x, y):
    # with respect to x
    if y == 0:
        dx = mpf(0)
    elif x == 0:
        if y == int(y):
            dx = y * M.power(x, y - 1) if y >= 1 else UNDEF
        else:
            dx = UNDEF if y < 1 else UNSPEC
    elif x > 0 or y == int(y):
        dx = y * M.power(x, y - 1)
    else:
        dx = UNDEF
    if x > 0:
        dy = M.log(x) * M.power(x, y)
    elif x == 0 and y > 0:
        dy = mpf(0)
    else:
        dy = UNDEF
    return [dx, dy]


def partials(name, args):
    a = [mpf(v) for v in args]
    x = a[0]
    if len(a) == 1:
        if name == 'acos':
            return [UNDEF if abs(x) == 1 else -1 / M.sqrt((1 - x) * (1 + x))]
        if name == 'asin':
            return [UNDEF if abs(x) == 1 else 1 / M.sqrt((1 - x) * (1 + x))]
        if name == 'acosh':
            return [UNDEF if x == 1 else 1 / M.sqrt((x - 1) * (x + 1))]
        if name == 'asinh':
            return [1 / M.hypot(1, x)]
        if name == 'atan':
            return [M.cos(M.atan(x)) ** 2]
        if name == 'atanh':
            return [(1 / (1 - x) + 1 / (1 + x)) / 2]
        if name == 'cos':
            return [-M.sin(x)]
        if name == 'cosh':
            return [M.sinh(x)]
        if name == 'degrees':
            return [180 / M.pi]
        if name == 'erf':
            return [2 / M.sqrt(M.pi) * M.exp(-x * x)]
        if name == 'erfc':
            return [-2 / M.sqrt(M.pi) * M.exp(-x * x)]
        if name in ('exp', 'expm1'):
            return [M.exp(x)]
        if name in ('fabs', 'abs'):
            return [UNSPEC if x == 0 else M.sign(x)]
        if name == 'gamma':
            return [M.gamma(x) * M.digamma(x)]
        if name == 'lgamma':
            return [M.digamma(x)]
        if name == 'log':
            return [1 / x]
        if name == 'log10':
            return [1 / (x * M.log(10))]
        if name == 'log1p':
            return [1 / (1 + x)]
        if name == 'radians':
            return [M.pi / 180]
        if name == 'sin':
            return [M.cos(x)]
        if name == 'sinh':
            return [M.cosh(x)]
        if name == 'sqrt':
            return [UNDEF if x == 0 else 1 / (2 * M.sqrt(x))]
        if name == 'tan':
            return [1 / M.cos(x) ** 2]
        if name == 'tanh':
            return [1 / M.cosh(x) ** 2]
        if name == 'neg':
            return [mpf(-1)]
        if name == 'pos':
            return [mpf(1)]
        if name == 'trunc':
            return [mpf(0)]
    y = a[1]
    if name == 'atan2':        # atan2(y, x): a = (y, x)
        if x == 0 and y == 0:
            return [UNDEF, UNDEF]
        r2 = x * x + y * y
        return [y / r2, -x / r2]
    if name == 'copysign':
        s = 1 if math.copysign(1, args[1]) > 0 else -1
        return [UNSPEC if x == 0 else s * M.sign(x), UNSPEC if y == 0 else mpf(0)]
    if name in ('fmod', '%', '//'):
        q = x / y
        if _near_int(q):
            return [UNSPEC, UNSPEC]
        if name == '//':
            return [mpf(0), mpf(0)]
        n = M.floor(q) if name == '%' else (M.floor(q) if q > 0 else M.ceil(q))
        return [mpf(1), -n]
    if name == 'hypot':
        if x == 0 and y == 0:
            return [UNDEF, UNDEF]
        h = M.sqrt(x * x + y * y)
        return [x / h, y / h]
    if name == 'log':
        return [1 / (x * M.log(y)), -M.log(x) / (y * M.log(y) ** 2)]
    if name in ('pow', '**'):
        return pow_partials(x, y)
    if name == '+':
        return [mpf(1), mpf(1)]
    if name == '-':
        return [mpf(1), mpf(-1)]
    if name == '*':
        return [y, x]
    if name == '/':
        return [1 / y, -x / (y * y)]
    raise KeyError(name)


def cond(name, args):
    """Relative error allowance for the formulas in floating point, from their conditioning."""
    a = [float(v) for v in args]
    x = a[0]
    t = 1e-11
    if name in ('acos', 'asin') and abs(x) < 1:
        t += 1e-15 / (1 - abs(x))
    elif name == 'acosh' and x > 1:
        t += 4e-15 * max(1, x) / (x - 1)
    elif name == 'atanh' and abs(x) < 1:
        t += 1e-15 / (1 - abs(x))
    elif name == 'log1p' and x > -1:
        t += 1e-15 / (1 + x)
    elif name == 'log' and len(a) == 2:
        t += 1e-14 / max(1e-300, abs(math.log(a[1]))) if a[1] > 0 and a[1] != 1 else 0
        t += 1e-14 / max(1e-300, abs(math.log(a[0]))) if a[0] > 0 and a[0] != 1 else 0
    elif name in ('pow', '**'):
        if a[0]:
            t += 1e-15 * abs(a[1] * math.log(abs(a[0]))) + 1e-15 * abs(a[1])
        if a[0] > 0 and a[0] != 1:
            t += 1e-14 / abs(math.log(a[0]))
    elif name in ('exp', 'expm1', 'sinh', 'cosh', 'erf', 'erfc'):
        t += 1e-15 * x * x if name in ('erf', 'erfc') else 1e-15 * abs(x)
    elif name in ('tan', 'sin', 'cos'):
        t += 1e-15 * abs(x)
    return t


def absol(name, args):
    """Absolute error allowance."""
    if name == 'tanh':
        return 1e-15
    if name in ('sin', 'cos', 'tan'):
        return 1e-15
    return 0.


def tol_numeric(name, args, d):
    """Error of a symmetric numerical derivative with relative step about 1.5e-8."""
    a = [float(v) for v in args]
    try:
        if name == 'fmod':
            f = math.fmod(*a)
        elif name == '%':
            f = a[0] % a[1]
        else:
            f = abs(getattr(math, name)(*a))
    except (ValueError, ZeroDivisionError, OverflowError):
        f = 0.
    m = min([abs(v) for v in a if v] + [1.])
    if name in ('fmod', '%'):
        m = abs(a[1]) or 1.
        return 1e-6 * max(1., abs(d)) + 1e-6 * (abs(a[0]) + abs(a[1])) / m
    x = a[0]
    dist = min(abs(x - round(x)), 1.) if x < 1 else 1.
    return 1e-6 * max(1., abs(d)) + 1e-6 * f / (abs(x) or 1.) + 1e-10 * (abs(d) + f) * (1 + abs(x)) / max(dist, 1e-9) ** 3


def py_op(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        return a / b
    if op == '//':
        return a // b
    if op == '%':
        return a % b
    if op == '**':
        return a ** b
    raise KeyError(op)


def check_spec():
    """Cross-checks the table with high-precision numerical differentiation (development aid)."""
    import random
    r = random.Random(1)
    fs = {'degrees': M.degrees, 'radians': M.radians, 'fabs': abs, 'gamma': M.gamma, 'lgamma': M.loggamma,
          'log10': M.log10, 'log1p': lambda x: M.log(1 + x), 'erf': M.erf, 'erfc': M.erfc, 'expm1': M.expm1}
    for n in ONE_ARG:
        f = fs.get(n) or getattr(M, n)
        for _ in range(5):
            x = r.uniform(.1, .9) if n != 'acosh' else r.uniform(1.1, 3)
            d = M.diff(f, x)
            assert abs(d - partials(n, [x])[0]) < 1e-12, (n, x, d)
    f2 = {'atan2': M.atan2, 'hypot': M.hypot, 'log': M.log, 'pow': M.power, '/': lambda x, y: x / y,
          '%': lambda x, y: x - y * M.floor(x / y), 'fmod': lambda x, y: x - y * M.sign(x / y) * M.floor(abs(x / y)),
          '*': lambda x, y: x * y}
    for n, f in f2.items():
        for _ in range(5):
            x, y = r.uniform(.1, 5), r.uniform(.2, .9)
            if n in ('%', 'fmod'):
                x *= r.choice([-1, 1])
            d = [M.diff(f, (x, y), (1, 0)), M.diff(f, (x, y), (0, 1))]
            p = partials(n, [x, y])
            assert all(abs(u - v) < 1e-10 for u, v in zip(d, p)), (n, x, y, d, p)
    return True
