# -*- coding: utf-8 -*-
"""Arbitrary functions given to wrap(): an uninterpreted function of its (bound) arguments, recorded call by call."""
import inspect, itertools
from .common import *

SPEC = inspect.FullArgSpec
SIGS = {
    # positional names, defaults, *args, keyword-only names, **kwargs, inspectable
    'f(x)': (['x'], {}, False, [], False, True),
    'f(x, y)': (['x', 'y'], {}, False, [], False, True),
    'f(x, y=2.5)': (['x', 'y'], {'y': 2.5}, False, [], False, True),
    'f(x, y, z=1.)': (['x', 'y', 'z'], {'z': 1.}, False, [], False, True),
    'f(x=1., y=2., z=3.)': (['x', 'y', 'z'], {'x': 1., 'y': 2., 'z': 3.}, False, [], False, True),
    'f(*a)': ([], {}, True, [], False, True),
    'f(x, *a)': (['x'], {}, True, [], False, True),
    'f(x, *, k=3.)': (['x'], {}, False, ['k'], False, True),
    'f(x, **q)': (['x'], {}, False, [], True, True),
    'f(x, y=1., **q)': (['x', 'y'], {'y': 1.}, False, [], True, True),
    'builtin(x, y)': (['x', 'y'], {}, False, [], False, False),
    'method(self, x, y=2.)': (['x', 'y'], {'y': 2.}, False, [], False, True),
}


class F(object):
    """The function to be wrapped.  result(E, value, labels): what it returns (default: the float)."""

    def __init__(self, E, sig, result=None):
        self.E, self.sig = E, sig
        self.names, self.dfl, self.va, self.ko, self.vk, insp = SIGS[sig]
        self.calls = []          # (labelled values, positional arguments, keyword arguments, result)
        self.result = result
        self.method = sig.startswith('method')
        attrs = {}
        if insp:
            names = (['self'] if self.method else []) + self.names
            attrs['argspec'] = SPEC(args=names, varargs='a' if self.va else None, varkw='q' if self.vk else None,
                                    defaults=tuple(self.dfl[n] for n in self.names if n in self.dfl) or None,
                                    kwonlyargs=list(self.ko), kwonlydefaults={n: 3. for n in self.ko} or None, annotations={})
        if self.method:
            attrs['ismethod'] = True
        self.fun = SFunc('f', self.call, attrs)

    def bind(self, a, k):
        """Ordered (label, value) pairs; labels: parameter names or positions."""
        out = []
        if len(a) > len(self.names) and not self.va:
            raise TypeError('f() takes fewer positional arguments')
        for n, v in zip(self.names, a):
            if n in k:
                raise TypeError('f() got multiple values for argument')
            out.append((n, v))
        for n in self.names[len(a):]:
            if n in k:
                out.append((n, k[n]))
            elif n in self.dfl:
                out.append((n, self.dfl[n]))
            else:
                raise TypeError('f() missing an argument')
        out += [(i, v) for i, v in enumerate(a) if i >= len(self.names)]
        for n in self.ko:
            out.append((n, k.get(n, 3.)))
        for n in sorted(k):
            if n not in self.names and n not in self.ko:
                if not self.vk:
                    raise TypeError('f() got an unexpected keyword argument')
                out.append((n, k[n]))
        return out

    def call(self, E, a, k):
        if self.sig.startswith('builtin') and k:
            raise TypeError('f() takes no keyword arguments')
        b = self.bind(a, k)
        tag, ts = 'f', []
        for l, v in b:
            if is_num(v) and (isinstance(v, Sym) or finite_const(v)):
                ts.append(E.term(v))
                tag += ':%s' % l
            elif isinstance(v, core.AffineScalarFunc):
                E.fail('the function never receives a number with uncertainty', 'argument %s' % l)
                raise PathEnd
            else:
                tag += ':%s=%s' % (l, id(v))
        r = SFloat(E.fn(tag, *ts)) if ts else SFloat(z3.Real(tag))
        r = self.result(E, r, b) if self.result is not None else r
        self.calls.append((b, tuple(a), dict(k), r))
        return r


class D(object):
    """A derivative given by the user: an uninterpreted function of its arguments."""

    def __init__(self, E, name, label):
        self.name, self.label = name, label
        self.calls = []
        self.fun = SFunc(name, self.call)

    def call(self, E, a, k):
        r = None
        for b, m, q in self.calls:     # a function: same value for the same arguments
            if same_args(E, (a, k), (b, m)):
                r = q
        if r is None:
            r = SFloat(E.fresh('deriv_' + self.name))
        self.calls.append((tuple(a), dict(k), r))
        return r


def same_args(E, a, b):
    """Same positional and keyword arguments (same objects or numbers)."""
    (p, k), (q, m) = a, b
    if len(p) != len(q) or set(k) != set(m):
        return False
    return all(same_value(E, x, y) for x, y in list(zip(p, q)) + [(k[n], m[n]) for n in k])


def same_value(E, x, y):
    if x is y:
        return True
    if is_num(x) and is_num(y) and type(x) is type(y):
        if isinstance(x, Sym) and isinstance(y, Sym):
            return z3.simplify(x.t).eq(z3.simplify(y.t))
        return not isinstance(x, Sym) and not isinstance(y, Sym) and (x == y or x != x and y != y)
    return False


def nominal_args(pos, kw):
    n = lambda v: object.__getattribute__(v, '_nominal_value') if isinstance(v, core.AffineScalarFunc) else v
    return tuple(n(v) for v in pos), {k: n(v) for k, v in kw.items()}


def make_args(E, pattern, opaque=True):
    """Operands of a call pattern: (kinds of the positional arguments, {name: kind})."""
    def mk(name, kind):
        if kind == 'opaque':
            o = Opaque('opaque ' + name, cls=object, attrs={'closed': True})
            E.keep.append(o)
            return o
        if kind == 'text':
            return 'some text'
        return operand(E, name, kind)[0]
    pos, kw = pattern
    t = str(len(E.keep))
    return [mk('a%d.%s' % (i, t), k) for i, k in enumerate(pos)], {n: mk('%s.%s' % (n, t), k) for n, k in kw.items()}


def difference_quotient(E, f, c0, bound, label):
    """The symmetric difference quotient of f at `bound` along `label`, computed in the calls since c0 (term), or None."""
    moved = []
    for b, a, k, r in f.calls[c0:]:
        if [l for l, v in b] != [l for l, v in bound]:
            continue
        if all(same_value(E, v, w) for (l, v), (l2, w) in zip(b, bound) if l != label):
            v, w = dict(b)[label], dict(bound)[label]
            if not same_value(E, v, w):
                moved.append((v, r))
    if len(moved) != 2:
        if len(moved) < 2:
            E.fail('numerical derivative with respect to %r' % (label,), '%d evaluations of f where only this argument moves' % len(moved))
            return None
        raise Unsupported('numerical derivative with %d evaluations' % len(moved))
    t = E.term(dict(bound)[label])
    (up, fp), (um, fm) = moved
    hp, hm = E.term(up) - t, E.term(um) - t
    a = z3.If(t >= 0, t, -t)
    E.ensure('symmetric small steps of the numerical derivative', z3.And(
        hp == -hm, hp != 0, z3.If(hp >= 0, hp, -hp) <= rv(1e-5) * z3.If(a == 0, real(1), a)))
    return (E.term(fp) - E.term(fm)) / (hp - hm)


def check_call(E, w, f, deriv_of, pos, kw, tag=''):
    """One call of the wrapped function w with uncertain arguments.  deriv_of(label): D object or None (numerical)."""
    npos, nkw = nominal_args(pos, kw)
    fr = Frame(E, *[v for v in list(pos) + list(kw.values()) if isinstance(v, core.AffineScalarFunc)])
    c0 = len(f.calls)
    marks = {}
    got = run(E, w, *pos, **kw)
    try:
        bound = f.bind(npos, nkw)
        if f.sig.startswith('builtin') and kw:
            raise TypeError
    except TypeError:
        E.cover('bad call')
        E.ensure(tag + 'TypeError for a bad call', got[0] == 'exc' and isinstance(got[1], TypeError), show(got))
        return None
    if not E.ensure(tag + 'no exception', got[0] == 'ok', show(got)):
        return None
    nominal = [c for c in f.calls[c0:] if same_args(E, (c[1], c[2]), (npos, nkw))]
    if not E.ensure(tag + 'f evaluated once at the nominal values', len(nominal) == 1, '%d times' % len(nominal)):
        return None
    value = nominal[0][3]
    res = got[1]
    if not E.ensure(tag + 'type of the result', isinstance(res, core.AffineScalarFunc), show(res)):
        return None
    same_num(E, tag + 'nominal value', object.__getattribute__(res, '_nominal_value'), E.to_float(value) if is_num(value) else value)
    cs = coefficients(E, res)
    labels = [l for l, v in bound]
    want = {}
    for i, v in enumerate(pos):
        if isinstance(v, core.AffineScalarFunc):
            want.setdefault(id(object.__getattribute__(v, '_linear_part')), []).append((f.names[i] if i < len(f.names) else i, i))
    for n, v in kw.items():
        if isinstance(v, core.AffineScalarFunc):
            want.setdefault(id(object.__getattribute__(v, '_linear_part')), []).append((n, n))
    E.ensure(tag + 'no other dependence', set(cs) <= set(want), show(sorted(cs)))
    for k, ls in want.items():
        tot = real(0)
        for label, ref in ls:
            d = deriv_of(label)
            if d is not None:
                used = [c for c in d.calls if same_args(E, (c[0], c[1]), (npos, nkw))]
                bad = [c for c in d.calls if c not in used and not c[2] is None and c not in d.seen]
                E.ensure(tag + 'the derivative of %r is called with the nominal arguments' % (label,), used and not bad,
                         '%d good calls, %d others' % (len(used), len(bad)))
                if not used:
                    tot = None
                    break
                tot = tot + used[-1][2].t
            else:
                q = difference_quotient(E, f, c0, bound, label)
                if q is None:
                    tot = None
                    break
                tot = tot + q
        if tot is not None:
            g = cs.get(k, 0.)
            E.ensure(tag + 'derivative with respect to %s' % '+'.join(str(l) for l, r in ls), E.term(g) == tot if is_num(g) else False, show(g))
    fr.check()
    E.cover('value')
    return res
