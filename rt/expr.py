# -*- coding: utf-8 -*-
"""Random programs over numbers with uncertainty, and their forward-mode oracle.

A program is a list of steps; each step that creates an object appends it to the object list (both in the
real world and in the oracle).  References to operands are object indices (ints) or ('k', plain number).
"""
import copy, itertools, pickle
from .base import *
from . import spec, nums
import uncertainties
from uncertainties import ufloat, UFloat, umath, wrap

FN1 = ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atanh', 'cos', 'cosh', 'degrees', 'erf', 'erfc', 'exp', 'expm1',
       'fabs', 'gamma', 'log', 'log10', 'log1p', 'radians', 'sin', 'sinh', 'sqrt', 'tan', 'tanh']
FN2 = ['atan2', 'hypot', 'log', 'pow', 'copysign', 'fmod']


def _w0(x, y):
    return x * y + math.sin(x)


def _w1(x, y, z=2.):
    return x * x * y - z * y


def _w2(*args):
    return args[0] - 2 * args[1] + sum(args[2:])


def _w3(a, b=1., **kw):
    return a * b + kw.get('c', 0.) * a


WRAPS = {
    'w0': (wrap(_w0, [lambda x, y: y + math.cos(x), lambda x, y: x]), _w0,
           lambda x, y: [y + math.cos(x), x], False),
    'w0n': (wrap(_w0), _w0, lambda x, y: [y + math.cos(x), x], True),
    'w0m': (wrap(_w0, [None, lambda x, y: x]), _w0, lambda x, y: [y + math.cos(x), x], True),
    'w1': (wrap(_w1, [lambda x, y, z=2.: 2 * x * y, lambda x, y, z=2.: x * x - z, lambda x, y, z=2.: -y]), _w1,
           lambda x, y, z=2.: [2 * x * y, x * x - z, -y], False),
    'w2': (wrap(_w2, itertools.cycle([lambda *a: 1., lambda *a: -2., lambda *a: 1., lambda *a: 1.])), _w2,
           lambda *a: [1., -2., 1., 1.][:len(a)], False),
    'w3': (wrap(_w3, [lambda a, b=1., **kw: b + kw.get('c', 0.), lambda a, b=1., **kw: a], {'c': lambda a, b=1., **kw: a}),
           _w3, None, False),
}


class Node(object):
    __slots__ = ('n', 'd', 'a', 'e', 'var')

    def __init__(self, n, d, a, e, var=None):
        self.n, self.d, self.a, self.e, self.var = n, d, a, e, var


def combine(n, parts):
    """parts: list of (local partial, its error bound, Node)."""
    d, a, e = {}, {}, {}
    for p, pe, c in parts:
        for v in c.d:
            d[v] = d.get(v, 0.) + p * c.d[v]
            a[v] = a.get(v, 0.) + abs(p) * c.a[v]
            e[v] = e.get(v, 0.) + abs(p) * c.e[v] + pe * c.a[v]
    return Node(n, d, a, e)


class Invalid(Exception):
    pass


def good(v):
    return isinstance(v, float) and math.isfinite(v) and (v == 0 or 1e-12 < abs(v) < 1e12)


def local(name, vals):
    """Local partials (float, error bound)."""
    if name in ('gamma', 'fmod') and not all(1e-3 < abs(v) < 25 for v in vals):
        raise Invalid
    if name == 'gamma' and vals[0] < .05:
        raise Invalid
    out = []
    for p in spec.partials(name, vals):
        if p is spec.UNDEF or p is spec.UNSPEC:
            raise Invalid
        p = float(p)
        if not math.isfinite(p) or abs(p) > 1e12:
            raise Invalid
        pe = spec.tol_numeric(name, vals, p) if name in spec.NUMERIC else \
            spec.cond(name, vals) * abs(p) + spec.absol(name, vals)
        out.append((p, pe))
    return out


class World(object):
    """The two worlds side by side."""

    def __init__(self):
        self.real = []
        self.nodes = []
        self.sds = {}
        self.vars = {}       # oracle var key -> real Variable
        self.created = []

    def val(self, ref):
        return self.nodes[ref].n if isinstance(ref, int) else ref[1]

    def obj(self, ref):
        return self.real[ref] if isinstance(ref, int) else ref[1]

    def add(self, real, node):
        self.real.append(real)
        self.nodes.append(node)

    def newvar(self, x, n, s):
        key = len(self.vars)
        self.vars[key] = x
        self.sds[key] = s
        self.add(x, Node(n, {key: 1.}, {key: 1.}, {key: 0.}, key))

    def step(self, st):
        k = st[0]
        if k == 'var':
            x = ufloat(st[1], st[2])
            self.newvar(x, float(st[1]), st[2])
            return
        if k == 'set':
            nd = self.nodes[st[1]]
            if nd.var is not None:
                self.real[st[1]].std_dev = st[2]
                self.sds[nd.var] = st[2]
            return
        if k == 'read':
            observe(st[1], self.real[st[2]], self.real[st[3]] if len(st) > 3 else None)
            return
        if k in ('bin', 'iop', 'un', 'fn', 'wr', 'sum'):
            try:
                n, parts, go = self.plan(st)
            except (Invalid, ValueError, ZeroDivisionError, OverflowError):
                # not at this point: alias of the first object operand
                i = self.first(st)
                self.add(self.real[i], self.nodes[i])
                return
            if not good(n):
                i = self.first(st)
                self.add(self.real[i], self.nodes[i])
                return
            self.add(go(), combine(n, parts))
            return
        if k == 'dup':
            x, nd = self.real[st[2]], self.nodes[st[2]]
            if st[1] == 'copy' and nd.var is None:
                self.add(copy.copy(x), Node(nd.n, dict(nd.d), dict(nd.a), dict(nd.e)))
            else:
                self.add(x, nd)
            return
        raise KeyError(k)

    def first(self, st):
        for r in self.refs(st):
            if isinstance(r, int):
                return r
        raise AssertionError(st)

    def refs(self, st):
        if st[0] in ('bin', 'iop'):
            return [st[2], st[3]]
        if st[0] == 'un':
            return [st[2]]
        if st[0] == 'sum':
            return list(st[1])
        return list(st[2]) + (list(st[3].values()) if len(st) > 3 else [])

    def plan(self, st):
        k = st[0]
        refs = self.refs(st)
        vals = [self.val(r) for r in refs]
        fv = [float(v) for v in vals]
        objs = [self.obj(r) for r in refs]
        if k in ('bin', 'iop'):
            op = st[1]
            n = spec.py_op(op, fv[0], fv[1])
            ps = local(op, fv)
            if k == 'bin':
                go = lambda: spec.py_op(op, *objs)
            else:
                from .c03 import _C

                def go():
                    ns = {'a': objs[0], 'b': objs[1]}
                    exec(_C[op], ns)
                    return ns['a']
        elif k == 'un':
            n = {'neg': lambda v: -v, 'abs': abs, 'pos': lambda v: +v}[st[1]](fv[0])
            ps = local(st[1], fv)
            go = lambda: {'neg': lambda v: -v, 'abs': abs, 'pos': lambda v: +v}[st[1]](objs[0])
        elif k == 'fn':
            n = getattr(math, st[1])(*vals)
            ps = local(st[1], fv)
            go = lambda: getattr(umath, st[1])(*objs)
        elif k == 'sum':
            n = vals[0]
            for v in vals[1:]:
                n = n + v
            n = 0 + vals[0]
            for v in vals[1:]:
                n = n + v
            n = float(n)
            ps = [(1., 0.)] * len(vals)
            go = lambda: sum(objs)
        else:
            w, f, dd, numeric = WRAPS[st[1]]
            kw = st[3] if len(st) > 3 else {}
            pos = st[2]
            kwv = {q: self.val(r) for q, r in kw.items()}
            pv = [self.val(r) for r in pos]
            n = f(*pv, **kwv)
            if st[1] == 'w3':
                a, b, c = pv[0], (pv[1] if len(pv) > 1 else kwv.get('b', 1.)), kwv.get('c', 0.)
                table = {'b': a, 'c': a}
                dl = [b + c] + ([a] if len(pv) > 1 else []) + [table[q] for q in kw]
            elif kw:   # w1 with z (or y) by keyword
                full = dict(zip(['x', 'y', 'z'], pv))
                full.update(kwv)
                d3 = dict(zip(['x', 'y', 'z'], dd(**full)))
                dl = [d3[q] for q in ['x', 'y', 'z'][:len(pv)]] + [d3[q] for q in kw]
            else:
                dl = dd(*pv)
            m = 1 + max([abs(v) for v in pv] + [abs(n)])
            if numeric and (m > 1e4 or any(0 < abs(v) < 1e-3 for v in pv)):
                raise Invalid
            ps = [(float(p), (1e-6 * m * m if numeric else 1e-12 * abs(p))) for p in dl]
            go = lambda: w(*[self.obj(r) for r in pos], **{q: self.obj(r) for q, r in kw.items()})
        parts = [(p, pe, self.nodes[r]) for (p, pe), r in zip(ps, refs) if isinstance(r, int)]
        return n, parts, go

    def std(self, nd):
        t = 0.
        er = 0.
        for v, d in nd.d.items():
            s = self.sds[v]
            if s:
                t += (d * s) ** 2
                er += (nd.e[v] + 1e-12 * nd.a[v]) * s
        return math.sqrt(t), er

    def verify(self, i):
        """Compares object i with the oracle."""
        x, nd = self.real[i], self.nodes[i]
        if not isinstance(x, UFloat):
            return 'object %d is not a number with uncertainty: %r' % (i, x)
        if type(x.nominal_value) is not float or not same(x.nominal_value, nd.n):
            return 'object %d: nominal value %r instead of %r' % (i, x.nominal_value, nd.n)
        der = x.derivatives
        known = {id(v): k for k, v in self.vars.items()}
        for v in der:
            if id(v) not in known:
                return 'object %d depends on an unknown variable' % i
            if known[id(v)] not in nd.d and der[v] != 0:
                return 'object %d depends on variable %d (derivative %r)' % (i, known[id(v)], der[v])
        for k, d in nd.d.items():
            got = der.get(self.vars[k], 0.)
            tol = nd.e[k] + 1e-11 * nd.a[k] + 1e-290
            if not abs(got - d) <= tol:
                return 'object %d: derivative with respect to variable %d is %r instead of %r (tolerance %g)' % (
                    i, k, got, d, tol)
        s, er = self.std(nd)
        got = x.std_dev
        if not abs(got - s) <= er + 1e-11 * s + 1e-150:
            return 'object %d: std_dev %r instead of %r' % (i, got, s)


STRANGER = ufloat(1., 0.5)
OBS = ['derivatives', 'lookup', 'std_dev', 'str', 'repr', 'components', 'format', 'hash', 'eq', 'lt', 'ne', 'ge', 'bool', 'copy', 'deepcopy',
       'pickle', 'nominal', 'score', 'cov', 'corr', 'covself', 's', 'helpers', 'arr', 'neg']


def observe(what, x, y=None):
    try:
        if what == 'derivatives':
            x.derivatives
        elif what == 'lookup':
            for v in (list(y.derivatives) if y is not None else []) + [STRANGER]:
                try:
                    x.derivatives[v]
                except KeyError:
                    pass
        elif what == 'std_dev':
            x.std_dev
        elif what == 's':
            x.s, x.n
        elif what == 'helpers':
            uncertainties.nominal_value(x), uncertainties.std_dev(x)
        elif what == 'str':
            str(x)
        elif what == 'repr':
            repr(x)
        elif what == 'components':
            x.error_components()
        elif what == 'format':
            format(x, '.3uS'), '{:e}'.format(x), '{:P}'.format(x), '{:12.3fL}'.format(x), x.format('%')
        elif what == 'hash':
            hash(x)
        elif what == 'eq':
            x == (y if y is not None else 1.)
        elif what == 'ne':
            x != (y if y is not None else 1.)
        elif what == 'lt':
            x < (y if y is not None else 1)
        elif what == 'ge':
            x >= (y if y is not None else 1.)
        elif what == 'bool':
            bool(x)
        elif what == 'copy':
            copy.copy(x)
        elif what == 'deepcopy':
            copy.deepcopy(x)
        elif what == 'pickle':
            pickle.loads(pickle.dumps(x, 2))
        elif what == 'nominal':
            x.nominal_value
        elif what == 'score':
            x.std_score(1.)
        elif what == 'cov':
            uncertainties.covariance_matrix([x, y if y is not None else x])
        elif what == 'covself':
            uncertainties.covariance_matrix([x, x])
        elif what == 'corr':
            uncertainties.correlation_matrix([x, y if y is not None else x])
        elif what == 'arr':
            from uncertainties import unumpy
            import numpy
            a = numpy.array([x, x if y is None else y])
            unumpy.std_devs(a), unumpy.nominal_values(a)
        elif what == 'neg':
            -x, x + 1, 2 * x
    except (ValueError, ZeroDivisionError, TypeError, OverflowError) as e:
        if what in ('hash', 'score', 'corr') or isinstance(e, OverflowError):
            return
        raise


def operand(r, n, kp=.2):
    if r.random() < kp:
        return ('k', r.choice([2, 3, -1, .5, 2., 1., nums.fl(r, -1, 1), 10]))
    # prefers recent objects
    return n - 1 - min(int(r.expovariate(.5)), n - 1) if r.random() < .6 else r.randrange(n)


def program(r, size=12, reads=0., sets=0., maxvars=4):
    nv = r.randint(1, maxvars)
    prog = [('var', nums.fl(r, -1, 1, zero=False), nums.sd(r)) for _ in range(nv)]
    n = nv
    nsteps = r.randint(1, size)
    for _ in range(nsteps):
        if r.random() < reads:
            prog.append(('read', r.choice(OBS), r.randrange(n), r.randrange(n)))
        if r.random() < sets:
            prog.append(('set', r.randrange(nv), nums.sd(r)))
        k = r.random()
        if k < .5:
            a, b = operand(r, n), operand(r, n)
            if not isinstance(a, int) and not isinstance(b, int):
                a = r.randrange(n)
            op = r.choice(['+', '-', '*', '/', '+', '-', '*', '/', '//', '%', '**'])
            prog.append((r.choice(['bin', 'bin', 'bin', 'iop']), op, a, b))
        elif k < .6:
            prog.append(('un', r.choice(['neg', 'abs', 'pos']), operand(r, n, 0)))
        elif k < .75:
            prog.append(('fn', r.choice(FN1), [operand(r, n, 0)]))
        elif k < .83:
            a, b = operand(r, n), operand(r, n)
            if not isinstance(a, int) and not isinstance(b, int):
                b = r.randrange(n)
            prog.append(('fn', r.choice(FN2), [a, b]))
        elif k < .93:
            w = r.choice(['w0', 'w0n', 'w0m', 'w1', 'w2', 'w3'])
            na = {'w0': 2, 'w0n': 2, 'w0m': 2, 'w1': r.choice([2, 3]), 'w2': r.randint(2, 4), 'w3': r.choice([1, 2])}[w]
            pos = [operand(r, n) for _ in range(na)]
            kw = {}
            if w == 'w1' and r.random() < .6:
                m = r.choice([1, 2])
                pos = pos[:m]
                if m == 1:
                    kw['y'] = operand(r, n)
                kw['z'] = operand(r, n)
                if r.random() < .5:
                    kw = dict(reversed(list(kw.items())))
            if w == 'w3':
                if na == 1 and r.random() < .6:
                    kw['b'] = operand(r, n)
                if r.random() < .6:
                    kw['c'] = operand(r, n)
            allr = pos + list(kw.values())
            if not any(isinstance(q, int) for q in allr):
                pos[0] = r.randrange(n)
            prog.append(('wr', w, pos, kw))
        elif k < .97:
            prog.append(('sum', [operand(r, n, .1) for _ in range(r.randint(1, 5))]))
            if not any(isinstance(q, int) for q in prog[-1][1]):
                prog[-1][1][0] = r.randrange(n)
        else:
            prog.append(('dup', 'copy', r.randrange(n)))
        n += 1
    return prog
