# -*- coding: utf-8 -*-
"""C10: contracts of the comparison operators and of bool()."""
from .common import *
import fractions, decimal

OPS = {'<': progs.lt, '<=': progs.le, '>': progs.gt, '>=': progs.ge, '==': progs.eq, '!=': progs.ne}


def equality(E, x, y, nx, ny):
    """x == y according to the property: x-y has nominal value 0 and uncertainty 0 (term)."""
    xa = x if isinstance(x, core.AffineScalarFunc) else y
    xb, na, nb = (y, nx, ny) if xa is x else (x, ny, nx)
    n0 = len(E.std_reads)
    d = run(E, progs.diff_parts, xa, xb)
    if d[0] != 'ok':
        raise Unsupported('x - y: %s' % show(d))
    n, s = d[1]
    del E.std_reads[n0:]
    zero_n = E.term(n) == 0 if isinstance(n, Sym) else z3.BoolVal(n == 0)
    zero_s = E.term(s) == 0 if isinstance(s, Sym) else z3.BoolVal(float(s) == 0)
    return z3.And(zero_n, zero_s)


def comparison(op, lk, rk):
    def h(E):
        coll.setup(E)
        std_contract(E)
        x, nx, lx = operand(E, 'x', lk)
        y, ny, ly = (x, nx, lx) if rk == 'same' else operand(E, 'y', rk)
        fr = Frame(E, x, y)
        r = run(E, OPS[op], x, y)
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            E.ensure('bool', E.type_of(r[1]) is bool, show(r))
            got = truth_term(E, r[1])
            if got is not None:
                n = len(E.std_reads)
                lt = fcompare(E, op[0], nx, ny) if op[0] in '<>' else None
                if op in ('<', '>'):
                    E.ensure('nominal values compared', got == lt)
                else:
                    eq = equality(E, x, y, nx, ny)
                    want = {'==': eq, '!=': z3.Not(eq)}.get(op)
                    if want is None:
                        want = z3.Or(lt, eq)
                    # without any use of std_dev the code may decide the equality differently: undecided then
                    E.ensure('documented semantics', got == want, inv=(n == 0))
                E.cover('value')
        fr.check()
    return h


def boolean(prog):
    def h(E):
        coll.setup(E)
        std_contract(E)
        x, nx, lx = operand(E, 'x', ('any', 'anyvar')[E.choose(2, 'kind')])
        fr = Frame(E, x)
        r = run(E, prog, x)
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            E.ensure('bool', E.type_of(r[1]) is bool, show(r))
            got = truth_term(E, r[1])
            n = len(E.std_reads)
            if got is not None:
                E.ensure('bool(x) is x != 0', got == z3.Not(equality(E, x, 0, nx, 0)), inv=(n == 0))
                E.cover('value')
        fr.check()
    return h


def closed(name, **kw):
    return Opaque(name, attrs=dict(kw, closed=True))


def not_a_number(op):
    """Comparison with an object which is not a number is left to that object."""
    def h(E):
        coll.setup(E)
        std_contract(E)
        x, nx, lx = operand(E, 'x', ('any', 'anyvar')[E.choose(2, 'kind')])
        left = E.choose(2, 'side')
        k = E.choose(5, 'object')
        y = [None, 'text', (1, 2), [1.], {}][k]
        r = run(E, OPS[op], *((y, x) if left else (x, y)))
        if op in ('==', '!='):
            E.ensure('never equal', r[0] == 'ok' and E.type_of(r[1]) is bool and bool(r[1]) is (op == '!='), show(r))
        else:
            E.ensure('TypeError', r[0] == 'exc' and type(r[1]) is TypeError, show(r))
        E.cover('value')
    return h


def other_object(op):
    """The reflected method of an arbitrary object decides."""
    def h(E):
        coll.setup(E)
        std_contract(E)
        x, nx, lx = operand(E, 'x', 'any')
        seen = []
        ans = Opaque('answer')

        def cmp(E, o, other):
            seen.append((o, other))
            return ans
        y = Opaque('object', attrs={'compare': cmp, 'closed': True})
        r = run(E, E.compare, op, x, y) if False else cmp_run(E, op, x, y)
        refl = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        E.ensure('result of the other object', r[0] == 'ok' and r[1] is ans, show(r))
        E.ensure('reflected operator, called with the quantity', len(seen) == 1 and seen[0][0] == refl and seen[0][1] is x, show([a for a, b in seen]))
        E.cover('value')
    return h


def cmp_run(E, op, x, y):
    try:
        return ('ok', E.compare(op, x, y))
    except Exception as e:
        interp.guard(e)
        return ('exc', e)


def numbers_(op, v):
    """Other kinds of real numbers."""
    def h(E):
        coll.setup(E)
        std_contract(E)
        x, nx, lx = operand(E, 'x', 'asf')
        left = E.choose(2, 'side')
        a, b = (v, x) if left else (x, v)
        na, nb = (float(v), nx) if left else (nx, float(v))
        r = run(E, OPS[op], a, b)
        if E.ensure('no exception', r[0] == 'ok', show(r)):
            got = truth_term(E, r[1])
            E.ensure('bool', got is not None, show(r))
            if got is not None:
                n = len(E.std_reads)
                lt = fcompare(E, op[0], na, nb) if op[0] in '<>' else None
                if op in ('<', '>'):
                    E.ensure('nominal values compared', got == lt)
                else:
                    eq = equality(E, x, float(v), nx, float(v))
                    E.ensure('documented semantics', got == ({'==': eq, '!=': z3.Not(eq)}.get(op) if op[0] not in '<>' else z3.Or(lt, eq)), inv=(n == 0))
                E.cover('value')
    return h


UNITS = {}
for _op in OPS:
    for _l, _r in (('any', 'any'), ('any', 'anyvar'), ('anyvar', 'anyvar'), ('any', 'same'), ('anyvar', 'same'), ('any', 'anyfloat'), ('anyfloat', 'any'),
                   ('any', 'int'), ('int', 'any'), ('anyvar', 'anyfloat'), ('int', 'anyvar')):
        UNITS['%s %s %s' % (_l, _op, _r)] = (comparison(_op, _l, _r), {'covers': ('value',)})
    UNITS['%s with no number' % _op] = (not_a_number(_op), {'covers': ('value',)})
    UNITS['%s with another object' % _op] = (other_object(_op), {'covers': ('value',)})
    for _v in (True, fractions.Fraction(1, 3), fractions.Fraction(0)):
        UNITS['%s with %r' % (_op, _v)] = (numbers_(_op, _v), {'covers': ('value',)})
UNITS['bool()'] = (boolean(progs.to_bool), {'covers': ('value',)})
UNITS['truth test'] = (boolean(progs.test), {'covers': ('value',)})
