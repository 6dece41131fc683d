# -*- coding: utf-8 -*-
"""Helpers of the proof units."""
import math, z3
from .. import engine as EN, coll, interp, ops
from ..engine import (SFloat, SInt, SBool, SNum, SComplex, Opaque, SFunc, Sym, rv, is_num, finite_const, Unsupported, PathEnd)
from . import progs
import uncertainties.core as core
ops.INTERPRETED_FILES.add(progs.__file__)
NAN = float('nan')


class show(object):
    """Text of a value, computed only when an obligation is not discharged."""

    def __init__(self, x):
        self.x = x

    def __call__(self):
        return show_text(self.x)
    __str__ = __call__

    def __add__(self, o):
        return str(self) + str(o)

    def __radd__(self, o):
        return str(o) + str(self)


def show_text(x, d=2):
    if isinstance(x, tuple) and d:
        return '(%s)' % ', '.join(show_text(y, d - 1) for y in x)
    if isinstance(x, (core.AffineScalarFunc, core.LinearCombination)):
        return '<%s>' % type(x).__name__
    if isinstance(x, BaseException):
        import traceback
        tb = traceback.extract_tb(x.__traceback__)
        return '%s: %s @%s' % (type(x).__name__, x, '/'.join('%s:%d' % (f.name, f.lineno) for f in tb[-3:]))
    try:
        return repr(x)[:300]
    except Exception:
        return '<%s>' % type(x).__name__


def run(E, f, *args, **kwargs):
    """('ok', value) or ('exc', exception) of an interpreted call."""
    try:
        return ('ok', E.call(f, args, kwargs))
    except EN.EngineSignal:
        raise
    except Exception as e:
        interp.guard(e)
        return ('exc', e)


def operand(E, name, kind):
    """(object, nominal value, linear combination or None)."""
    if kind == 'var':
        v = coll.new_variable(E, name)
        return v, v._nominal_value, v._linear_part
    if kind == 'asf':
        x = coll.new_asf(E, name)
        return x, x._nominal_value, object.__getattribute__(x, '_linear_part')
    if kind == 'float':
        c = E.real(name)
        return c, c, None
    if kind == 'int':
        c = E.integer(name)
        return c, c, None
    if kind == 'any':
        n = E.any_float(name)
        x = coll.new_asf(E, name, nominal=n)
        return x, n, object.__getattribute__(x, '_linear_part')
    if kind == 'anyvar':
        n = E.any_float(name)
        x = coll.new_variable(E, name, nominal=n)
        return x, n, x._linear_part
    if kind == 'anyfloat':
        n = E.any_float(name)
        return n, n, None
    if kind in ('nan', 'inf', '-inf'):
        c = float(kind)
        return c, c, None
    raise ValueError(kind)


def same_num(E, label, got, want, detail=None):
    """Obligation: same number (NaN equal to NaN)."""
    def nonfin(x):
        return isinstance(x, float) and not finite_const(x)
    if not is_num(got) or not is_num(want):
        return E.ensure(label, got is want or (not isinstance(got, Sym) and not isinstance(want, Sym) and type(got) is type(want) and got == want),
                        'got %r, expected %r' % (got, want))
    if nonfin(got) or nonfin(want):
        ok = nonfin(got) and nonfin(want) and (got == want or (got != got and want != want))
        return E.ensure(label, ok, 'got %r, expected %r' % (got, want))
    if not isinstance(got, Sym) and not isinstance(want, Sym):
        return E.ensure(label, got == want, 'got %r, expected %r' % (got, want))
    return E.ensure(label, E.term(got) == E.term(want), detail)


def is_nan(x):
    return isinstance(x, float) and x != x


def coefficients(E, res):
    """{id(linear combination): coefficient} of a result, or None after a failed obligation."""
    lp = object.__getattribute__(res, '_linear_part')
    return coll.coefs(E, lp)


class Frame(object):
    """Frame condition: the state of operands and containers does not change."""

    def __init__(self, E, *objs):
        self.E = E
        self.rec = []
        self.mark = len(E.writes)
        for o in objs:
            self.add(o)

    def add(self, o):
        if isinstance(o, core.AffineScalarFunc):
            lp = object.__getattribute__(o, '_linear_part')
            d = {}
            for n in ('_nominal_value', '_std_dev', 'tag'):
                try:
                    d[n] = object.__getattribute__(o, n)
                except AttributeError:
                    pass
            self.rec.append((o, lp, d, coll.den(self.E, lp)))
            self.E.keep.append(o)

    def check(self, label='operands unchanged'):
        E = self.E
        for o, lp, d, den in self.rec:
            lp2 = object.__getattribute__(o, '_linear_part')
            E.ensure(label + ' (linear part)', coll.den(E, lp2) == den)
            s = E.side.get(id(coll.slot(lp2, 'linear_combo')))
            if isinstance(s, coll.MapSide) and s.dom_init is not None:
                E.ensure(label + ' (set of variables)', s.dom_init == (z3.BoolVal(s.dom0) if isinstance(s.dom0, bool) else s.dom0))
            for n, v in d.items():
                now = object.__getattribute__(o, n)
                E.ensure(label + ' (%s)' % n, now is v or (isinstance(now, SNum) and isinstance(v, SNum) and now.t.eq(v.t)) or same_const(now, v), '%r -> %r' % (v, now))


def same_const(a, b):
    return not isinstance(a, Sym) and not isinstance(b, Sym) and type(a) is type(b) and (a == b or (a != a and b != b))


def real(x):
    return z3.RealVal(x)


def fcompare(E, op, a, b):
    """Comparison of numbers (Z3 term or bool)."""
    r = E.compare(op, a, b)
    return r.t if isinstance(r, SBool) else z3.BoolVal(bool(r))


def truth_term(E, v):
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return None


def std_contract(E):
    """Contract of AffineScalarFunc.std_dev (proved by the units of C02): a float >= 0, NaN or inf which is a function of
    the linear part, even (same value for the opposite linear part), 0 when all its coefficients are."""
    E.std_reads = []

    def same(cs, ds, sign):
        for k in set(cs) | set(ds):
            a, b = cs.get(k, 0.), ds.get(k, 0.)
            for v in (a, b):
                if isinstance(v, float) and not finite_const(v):
                    if not (isinstance(a, float) and isinstance(b, float) and (a != a and b != b or a == sign * b)):
                        return False
                    break
            else:
                if E.check(E.term(a) != sign * E.term(b)) != z3.unsat:
                    return False
        return True

    def c(E, args, kw):
        x = args[0]
        cs = coll.coefs(E, object.__getattribute__(x, '_linear_part'))
        for ds, s in E.std_reads:
            if same(cs, ds, 1) or same(cs, ds, -1):
                E.std_reads.append((cs, s))
                return s
        nonfin = [k for k in cs.values() if isinstance(k, float) and not finite_const(k)]
        if not nonfin and all(E.check(E.term(k) != 0) == z3.unsat for k in cs.values()):
            s = core.CallableStdDev(0.)
        else:
            k = E.choose(3, 'std_dev')
            if k == 0:
                s = SFloat(E.fresh('std'), core.CallableStdDev)
                E.fact(s.t >= 0)
            else:
                s = core.CallableStdDev((NAN, float('inf'))[k - 1])
        E.std_reads.append((cs, s))
        return s
    E.contracts[core.AffineScalarFunc.__dict__['std_dev'].fget] = c
    E.assumptions['std_dev is used through its contract (proved by the units of C02)'] = 1


def expand_contract(E):
    """Contract of LinearCombination.expand() (proved by the units of C01): linear_combo becomes a defaultdict(float) with
    the same coefficient for every variable."""
    def c(E, args, kw):
        lc = args[0]
        d = coll.den(E, lc)
        m = coll.map_for(E, 'expanded', d, plain=False)
        E.setattr(lc, 'linear_combo', m)
    E.contracts[core.LinearCombination.expand] = c
    E.assumptions['expand() is used through its contract (proved by the units of C01)'] = 1
