# -*- coding: utf-8 -*-
"""pyvc -- deductive verification of the Python code of /repo.

The verified text is the CPython bytecode of the live function objects imported
from /repo: nothing is translated by hand.  A *unit* is a harness that builds a
symbolic pre-state, calls a real function and states its postconditions; the
engine explores every path of the bytecode (loops over unbounded collections by
loop rules, see loops.py) and generates obligations  pc /\\ facts |- condition
that SMT solvers must discharge.

This file: path exploration, obligations, symbolic values.  interp.py: bytecode.
"""
import builtins, fractions, itertools, math, os, sys, time, types
import z3

Fr = fractions.Fraction


class EngineSignal(BaseException):
    """Never visible to the interpreted program."""


class PathEnd(EngineSignal):
    """The current path is over (infeasible, or cut by a loop rule)."""


class Unsupported(EngineSignal):
    """The code uses something outside the verified subset: undecided."""


class Restart(EngineSignal):
    """Exploration must restart (a loop rule learned its write set)."""


class Timeout(EngineSignal):
    pass


ENGINE = None  # current engine


# ---------------------------------------------------------------- values

class Sym(object):
    """Base of symbolic values."""
    __slots__ = ()
    pytype = object

    def __hash__(self):
        raise Unsupported('hash of a symbolic value')


def rv(x):
    """Exact real value of a Python number."""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float):
        f = Fr(x)
        return z3.Q(f.numerator, f.denominator)
    if isinstance(x, Fr):
        return z3.Q(x.numerator, x.denominator)
    raise TypeError(x)


class SNum(Sym):
    __slots__ = ('t', 'cls', 'rec')

    def __init__(self, t, cls=None):
        self.t = t
        self.cls = cls  # float/int subclass, or None
        self.rec = None

    def _b(op):
        def m(self, other):
            return ENGINE.num_binop(op, self, other)
        return m

    def _r(op):
        def m(self, other):
            return ENGINE.num_binop(op, other, self)
        return m
    __add__, __radd__ = _b('+'), _r('+')
    __sub__, __rsub__ = _b('-'), _r('-')
    __mul__, __rmul__ = _b('*'), _r('*')
    __truediv__, __rtruediv__ = _b('/'), _r('/')
    __floordiv__, __rfloordiv__ = _b('//'), _r('//')
    __mod__, __rmod__ = _b('%'), _r('%')
    __pow__, __rpow__ = _b('**'), _r('**')

    def _c(op):
        def m(self, other):
            return ENGINE.num_compare(op, self, other)
        return m
    __lt__, __le__, __gt__, __ge__ = _c('<'), _c('<='), _c('>'), _c('>=')
    __eq__, __ne__ = _c('=='), _c('!=')
    __hash__ = Sym.__hash__

    def __neg__(self):
        return type(self)(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return ENGINE.num_abs(self)

    def __bool__(self):
        return ENGINE.truth(self)

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, self.t)


class SFloat(SNum):
    __slots__ = ()

    @property
    def pytype(self):
        return self.cls or float


class SInt(SNum):
    __slots__ = ()

    @property
    def pytype(self):
        return self.cls or int


class SBool(Sym):
    __slots__ = ('t',)
    pytype = bool

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENGINE.decide(self.t)

    def __eq__(self, other):
        if isinstance(other, bool):
            return SBool(self.t if other else z3.Not(self.t))
        if isinstance(other, SBool):
            return SBool(self.t == other.t)
        return NotImplemented
    __hash__ = Sym.__hash__

    def __repr__(self):
        return '<SBool %s>' % self.t


class SComplex(Sym):
    """A complex result (only its type matters)."""
    __slots__ = ()
    pytype = complex


class Opaque(Sym):
    """A value about which nothing is known but its identity (parametric reasoning)."""
    __slots__ = ('name', 'attrs', 'truth', 'cls', '_h')

    def __init__(self, name, truth=None, cls=object, attrs=None):
        self.name, self.truth, self.cls = name, truth, cls
        self.attrs = attrs or {}

    @property
    def pytype(self):
        return self.cls

    def __repr__(self):
        return '<opaque %s>' % self.name

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SFunc(Sym):
    """An arbitrary Python callable: `handler(engine, args, kwargs)` gives its contract."""
    __slots__ = ('name', 'handler', 'attrs', 'calls')

    def __init__(self, name, handler, attrs=None):
        self.name, self.handler = name, handler
        self.attrs = attrs or {}
        self.calls = []

    @property
    def pytype(self):
        return types.FunctionType

    def __repr__(self):
        return '<sfunc %s>' % self.name

    def __hash__(self):
        return id(self)

    def __call__(self, *args, **kwargs):
        return ENGINE.call(self, args, kwargs)


NUMS = (int, float)


def is_num(x):
    return isinstance(x, (SNum, SBool, int, float)) and not isinstance(x, str)


def finite_const(x):
    return isinstance(x, int) or (isinstance(x, float) and not (math.isnan(x) or math.isinf(x)))


# ------------------------------------------------- mathematical functions (uninterpreted + axioms)

R = z3.RealSort()
_UF = {}


def uf(name, n=1):
    k = (name, n)
    if k not in _UF:
        _UF[k] = z3.Function('f_' + name, *([R] * (n + 1)))
    return _UF[k]


class Obligation(object):
    __slots__ = ('name', 'status', 'time', 'backend', 'model', 'detail', 'path', 'goal')

    def __init__(self, name):
        self.name = name
        self.status = None
        self.time = 0.
        self.backend = None
        self.model = None
        self.detail = None
        self.goal = None

    def as_dict(self):
        return dict(name=self.name, status=self.status, time=round(self.time, 4), backend=self.backend,
                    model=self.model, detail=self.detail)


class Engine(object):

    FEAS_TIMEOUT = 2000
    GOAL_TIMEOUT = 8000
    MAX_PATHS = 4000

    def __init__(self, name, deadline=None):
        self.name = name
        self.obligations = []
        self.paths = 0
        self.assumptions = {}
        self.functions = {}      # functions under verification (interpreted), name -> count
        self.contracts = {}      # function object -> handler
        self.contract_uses = {}
        self.loopinfo = {}
        self.deadline = deadline
        self.covers = {}
        self.solver_time = 0.
        self.unit_inputs = {}
        self.current_path = 0
        self.max_depth = 200
        self.labels_seen = set()

    # ---------------------------------------------------------- exploration

    def explore(self, harness):
        """Runs harness(self) on every path."""
        global ENGINE
        restarts = 0
        while True:
            try:
                self._explore(harness)
                return
            except Restart:
                restarts += 1
                if restarts > 20:
                    raise Unsupported('loop rule did not converge')
                self.obligations = []
                self.covers = {}

    def _explore(self, harness):
        global ENGINE
        stack = [[]]
        self.paths = 0
        while stack:
            prefix = stack.pop()
            self.begin_path(prefix)
            ENGINE = self
            try:
                harness(self)
            except PathEnd:
                pass
            self.paths += 1
            if self.paths > self.MAX_PATHS:
                raise Unsupported('too many paths')
            # alternatives of the decisions made beyond the prefix
            for i in range(len(self.trail) - 1, len(prefix) - 1, -1):
                choice, n, feasible = self.trail[i]
                for alt in feasible:
                    if alt > choice:
                        stack.append([t[0] for t in self.trail[:i]] + [alt])

    def begin_path(self, prefix):
        self.prefix = prefix
        self.trail = []
        self.facts = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.FEAS_TIMEOUT)
        self.fresh_n = itertools.count()
        self.seen_terms = {}
        self.ufterms = {}
        self.inputs = {}
        self.side = {}          # id -> container info (loops.py)
        self.keep = []          # keeps ids alive
        self.writes = []        # log of mutations
        self.loops = {}
        self.births = {}
        self.sums = []
        self.current_path += 1
        self.notes = []
        self.labels_on_path = {}
        self.abstract = {}
        self.oidmap = {}
        self.v0 = None

    def fact(self, f):
        if f is True:
            return
        self.facts.append(f)
        self.solver.add(f)

    assume_fact = fact

    def assume(self, cond):
        """Precondition: cuts the paths where it does not hold."""
        if isinstance(cond, SBool):
            cond = cond.t
        if cond is True:
            return
        if cond is False:
            raise PathEnd
        self.fact(cond)
        if self.check() == z3.unsat:
            raise PathEnd

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        if self.deadline and time.time() > self.deadline:
            raise Timeout('unit deadline')
        return r

    def choose(self, n, label=None):
        """Unconstrained n-ary choice (explored exhaustively)."""
        i = len(self.trail)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = 0
        self.trail.append((c, n, list(range(n))))
        return c

    def decide(self, cond):
        """Truth of a formula on the current path, forking when both are possible."""
        if isinstance(cond, SBool):
            cond = cond.t
        if cond is True or cond is False:
            return cond
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        i = len(self.trail)
        if i < len(self.prefix):
            c = self.prefix[i]
            self.trail.append((c, 2, [c]))
            self.fact(s if c == 0 else z3.Not(s))
            return c == 0
        can_t = self.check(s) != z3.unsat
        can_f = self.check(z3.Not(s)) != z3.unsat
        if not can_t and not can_f:
            raise PathEnd
        feas = ([0] if can_t else []) + ([1] if can_f else [])
        c = feas[0]
        self.trail.append((c, 2, feas))
        self.fact(s if c == 0 else z3.Not(s))
        return c == 0

    def truth(self, v):
        if isinstance(v, SBool):
            return self.decide(v.t)
        if isinstance(v, SNum):
            return self.decide(v.t != 0)
        if isinstance(v, Opaque):
            if v.truth is None:
                raise Unsupported('truth value of %r' % v)
            return self.decide(v.truth) if not isinstance(v.truth, bool) else v.truth
        if isinstance(v, SFunc):
            return True
        if isinstance(v, SComplex):
            raise Unsupported('truth of complex')
        return bool(v)

    # ---------------------------------------------------------- fresh values and inputs

    def fresh(self, name, sort=None):
        return z3.Const('%s!%d' % (name, next(self.fresh_n)), R if sort is None else sort)

    def real(self, name):
        """A finite float input."""
        t = z3.Const(name, R)
        self.inputs[name] = t
        return SFloat(t)

    def integer(self, name):
        t = z3.Const(name, z3.IntSort())
        self.inputs[name] = t
        return SInt(t)

    def boolean(self, name):
        t = z3.Const(name, z3.BoolSort())
        self.inputs[name] = t
        return SBool(t)

    def any_float(self, name, kinds=('fin', 'nan', 'inf', '-inf')):
        k = kinds[self.choose(len(kinds), name)]
        if k == 'fin':
            return self.real(name)
        v = float(k)
        self.inputs[name] = v
        return v

    # ---------------------------------------------------------- obligations

    def label(self, label):
        """Obligation name, unique on the path."""
        n = self.labels_on_path.get(label, 0)
        self.labels_on_path[label] = n + 1
        return '%s/path%d/%s%s' % (self.name, self.current_path, label, '#%d' % n if n else '')

    def ensure(self, label, cond, detail=None, inv=False):
        """Obligation: the condition holds here.  inv: an internal invariant (its failure is no violation
        of the property by itself: undecided)."""
        o = Obligation(self.label(label))
        self.obligations.append(o)
        self.labels_seen.add(label)
        o.detail = detail
        t = time.time()
        if isinstance(cond, SBool):
            cond = cond.t
        if cond is True or cond is False:
            # decided by evaluation; a False on an infeasible path is no violation
            if cond:
                o.status, o.backend = 'discharged', 'evaluation'
            else:
                self._goal(o, z3.BoolVal(False))
                if o.status == 'discharged':
                    o.time = time.time() - t
                    raise PathEnd     # an infeasible path
        else:
            self._goal(o, cond)
        o.time = time.time() - t
        if callable(o.detail):
            o.detail = None
        if inv and o.status == 'refuted':
            o.status = 'unknown'
            o.detail = 'internal invariant not established; ' + (o.detail or '')
        return o.status == 'discharged'

    def fail(self, label, detail=None):
        return self.ensure(label, False, detail)

    def cover(self, label):
        """Reachability: the path condition here is satisfiable (vacuity guard)."""
        if self.covers.get(label):
            return
        r = self.solver.check()
        self.covers[label] = (r != z3.unsat)

    def _goal(self, o, cond):
        from . import backends
        status, backend, model, detail = backends.prove(self, cond)
        o.status, o.backend = status, backend
        if model is not None:
            o.model = model
        if detail:
            if callable(o.detail):
                o.detail = o.detail()
            o.detail = (o.detail or '') + ' ' + detail
        if status != 'discharged':
            if callable(o.detail):
                o.detail = o.detail()
            o.goal = str(z3.simplify(cond))[:600]
            o.detail = (o.detail or '') + ' goal: ' + o.goal + ' inputs: ' + ', '.join(
                '%s=%s' % (k, v if not z3.is_expr(v) else 'sym') for k, v in self.inputs.items())

    def model_inputs(self, m):
        out = {}
        for k, v in self.inputs.items():
            if not z3.is_expr(v):
                out[k] = repr(v)
                continue
            try:
                x = m.eval(v, model_completion=True)
                out[k] = _val(x)
            except Exception as e:  # pragma: no cover
                out[k] = str(e)
        return out

    # ---------------------------------------------------------- numbers

    def term(self, x):
        """Real term of a number."""
        if isinstance(x, SFloat):
            return x.t
        if isinstance(x, SInt):
            return z3.ToReal(x.t)
        if isinstance(x, SBool):
            return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
        return rv(x)

    def is_int_like(self, x):
        return isinstance(x, (SInt, SBool)) or isinstance(x, int)

    def iterm(self, x):
        if isinstance(x, SInt):
            return x.t
        if isinstance(x, SBool):
            return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
        return z3.IntVal(int(x))

    def mk(self, t):
        return SFloat(z3.simplify(t) if False else t)

    def num_binop(self, op, a, b):
        if not is_num(a) or not is_num(b):
            return NotImplemented
        for x, y in ((a, b), (b, a)):
            if isinstance(x, float) and not finite_const(x):
                return self.nonfinite_binop(op, a, b)
        if self.is_int_like(a) and self.is_int_like(b):
            ta, tb = self.iterm(a), self.iterm(b)
            if op in '+-*':
                return SInt({'+': ta + tb, '-': ta - tb, '*': ta * tb}[op])
            if op in ('//', '%'):
                if self.decide(tb == 0):
                    raise ZeroDivisionError('integer division or modulo by zero')
                # z3 div/mod are Euclidean: use floor through reals
                q = z3.ToInt(z3.ToReal(ta) / z3.ToReal(tb))
                return SInt(q) if op == '//' else SInt(ta - tb * q)
            if op == '/':
                if self.decide(tb == 0):
                    raise ZeroDivisionError('division by zero')
                return SFloat(z3.ToReal(ta) / z3.ToReal(tb))
            if op == '**':
                if isinstance(b, int) and b >= 0:
                    r = z3.IntVal(1)
                    for _ in range(b):
                        r = r * ta
                    return SInt(r)
                if self.decide(tb < 0):
                    return self.float_pow(z3.ToReal(ta), z3.ToReal(tb), b)
                if isinstance(a, int) and a == 10:
                    return SFloat(self.pow10(tb)) if False else SInt(z3.ToInt(self.pow10(tb)))
                r = self.float_pow(z3.ToReal(ta), z3.ToReal(tb), b)
                return r
            return self.unsupported('int operator %s' % op)
        ta, tb = self.term(a), self.term(b)
        if op == '+':
            return SFloat(ta + tb)
        if op == '-':
            return SFloat(ta - tb)
        if op == '*':
            return SFloat(ta * tb)
        if op == '/':
            if self.decide(tb == 0):
                raise ZeroDivisionError('float division by zero')
            return SFloat(ta / tb)
        if op in ('//', '%'):
            if self.decide(tb == 0):
                raise ZeroDivisionError('float modulo')
            q = z3.ToReal(z3.ToInt(ta / tb))
            return SFloat(q) if op == '//' else SFloat(ta - tb * q)
        if op == '**':
            return self.float_pow(ta, tb, b)
        return self.unsupported('float operator %s' % op)

    def unsupported(self, what):
        raise Unsupported(what)

    def nonfinite_binop(self, op, a, b):
        """One operand (at least) is a concrete NaN or infinity."""
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return PYOPS[op](a, b)   # native
        nan = float('nan')
        for x in (a, b):
            if isinstance(x, float) and math.isnan(x) and op != '**':
                if op in ('/', '//', '%') and x is a and isinstance(b, Sym) and self.decide(self.term(b) == 0):
                    raise ZeroDivisionError('float division by zero')
                return nan
        # the other operand is finite: only its sign / zeroness matters (+ - * / //)
        if op in ('+', '-', '*', '/'):
            s, sym_left = (a, True) if isinstance(a, Sym) else (b, False)
            t = self.term(s)
            rep = 0. if self.decide(t == 0) else (1. if self.decide(t > 0) else -1.)
            return PYOPS[op](rep, b) if sym_left else PYOPS[op](a, rep)   # native
        if op in ('//', '%'):
            s, sym_left = (a, True) if isinstance(a, Sym) else (b, False)
            t = self.term(s)
            if not sym_left:
                if self.decide(t == 0):
                    raise ZeroDivisionError('float floor division by zero')
                return nan
            # finite // infinite, finite % infinite
            if self.decide(t == 0):
                return PYOPS[op](0., b)   # native
            if op == '%' and self.decide(t > 0) == (b > 0):
                return SFloat(t)
            return PYOPS[op](1. if self.decide(t > 0) else -1., b)   # native
        if op == '**':
            # only the position of the finite operand with respect to -1, 0, 1 and its parity matter
            if isinstance(a, Sym):
                t = self.term(a)
                for c in (0., 1., -1.):
                    if self.decide(t == rv(c)):
                        return c ** b   # native
                if self.decide(z3.And(t > -1, t < 1)):
                    return 0.5 ** b   # native
                return 2. ** b   # native
            t = self.term(b)
            if self.decide(t == 0):
                return a ** 0.   # native
            isint = self.decide(z3.IsInt(t))
            if isint:
                odd = self.decide(z3.ToInt(t) % 2 == 1)
                m = 1. if odd else 2.
            else:
                m = 1.5
            return a ** (m if self.decide(t > 0) else -m)   # native
        raise Unsupported('%s with an infinite operand' % op)

    def num_compare(self, op, a, b):
        if not is_num(a) or not is_num(b):
            return NotImplemented
        for x in (a, b):
            if isinstance(x, float) and not finite_const(x):
                if not isinstance(a, Sym) and not isinstance(b, Sym):
                    return PYCMP[op](a, b)
                # symbolic floats are finite
                return PYCMP[op](0. if isinstance(a, Sym) else a, 0. if isinstance(b, Sym) else b)
        if self.is_int_like(a) and self.is_int_like(b):
            ta, tb = self.iterm(a), self.iterm(b)
        else:
            ta, tb = self.term(a), self.term(b)
        return SBool({'<': ta < tb, '<=': ta <= tb, '>': ta > tb, '>=': ta >= tb,
                      '==': ta == tb, '!=': ta != tb}[op])

    def num_abs(self, x):
        if isinstance(x, SInt):
            return SInt(z3.If(x.t >= 0, x.t, -x.t))
        if isinstance(x, SBool):
            return SInt(self.iterm(x))
        return SFloat(z3.If(x.t >= 0, x.t, -x.t))

    def num_neg(self, x):
        if isinstance(x, SBool):
            return SInt(-self.iterm(x))
        return (SInt if isinstance(x, SInt) else SFloat)(-x.t)

    # ---------------------------------------------------------- transcendental functions

    def float_pow(self, x, y, pyy=None):
        """x**y for finite floats (mathematical reals; overflow not modelled)."""
        ys = z3.simplify(y)
        if z3.is_rational_value(ys) and ys.denominator_as_long() == 1:
            n = ys.numerator_as_long()
            if 0 <= n <= 8:
                r = z3.RealVal(1)
                for _ in range(n):
                    r = r * x
                return SFloat(r)
            if -8 <= n < 0:
                if self.decide(x == 0):
                    raise ZeroDivisionError('0.0 cannot be raised to a negative power')
                r = z3.RealVal(1)
                for _ in range(-n):
                    r = r * x
                return SFloat(z3.RealVal(1) / r)
        xs = z3.simplify(x)
        if z3.is_rational_value(xs) and xs.numerator_as_long() == 10 and xs.denominator_as_long() == 1:
            return SFloat(self.pow10(y))
        if self.decide(y == 0):
            return SFloat(z3.RealVal(1))
        if self.decide(x == 0):
            if self.decide(y < 0):
                raise ZeroDivisionError('0.0 cannot be raised to a negative power')
            return SFloat(z3.RealVal(0))
        if not self.decide(x > 0):
            if not self.decide(z3.IsInt(y)):
                return SComplex()
        return SFloat(self.rpow(x, y))

    def rpow(self, x, y):
        x, y = z3.simplify(x), z3.simplify(y)
        t = uf('rpow', 2)(x, y)
        if self.once(t):
            self.fact(t != 0)
            self.fact(z3.Implies(x > 0, t > 0))
            self.fact(z3.Implies(y == 1, t == x))
            for (x2, y2, t2) in list(self.ufterms.get('rpow', [])):
                if x2.eq(x):
                    d = z3.simplify(y - y2)
                    if z3.is_rational_value(d) and d.denominator_as_long() == 1:
                        n = d.numerator_as_long()
                        if abs(n) <= 4:
                            p = z3.RealVal(1)
                            for _ in range(abs(n)):
                                p = p * x
                            self.fact(t == t2 * p if n >= 0 else t2 == t * p)
            self.ufterms.setdefault('rpow', []).append((x, y, t))
        return t

    def pow10(self, e):
        """10**e, e an Int or a Real term (positive; laws instantiated between the terms met)."""
        if e.sort() == z3.IntSort():
            e = z3.ToReal(e)
        e = z3.simplify(e)
        if z3.is_rational_value(e) and e.denominator_as_long() == 1:
            n = e.numerator_as_long()
            if abs(n) < 400:
                f = Fr(10) ** n
                return z3.Q(f.numerator, f.denominator)
        t = uf('pow10', 1)(e)
        if self.once(t):
            self.fact(t > 0)
            self.fact(z3.Implies(e == 0, t == 1))
            # one-sided sandwich facts for small exponents
            for k in (-4, -3, -2, -1, 0, 1, 2, 3, 4):
                f = Fr(10) ** k
                self.fact(z3.And(z3.Implies(e >= k, t >= z3.Q(f.numerator, f.denominator)),
                                 z3.Implies(e <= k, t <= z3.Q(f.numerator, f.denominator))))
            for (e2, t2) in list(self.ufterms.get('pow10', [])):
                d = z3.simplify(e - e2)
                if z3.is_rational_value(d) and d.denominator_as_long() == 1 and \
                        abs(d.numerator_as_long()) < 400:
                    f = Fr(10) ** d.numerator_as_long()
                    self.fact(t == t2 * z3.Q(f.numerator, f.denominator))
                else:
                    self.fact(z3.And(z3.Implies(e >= e2 + 1, t >= 10 * t2),
                                     z3.Implies(e2 >= e + 1, t2 >= 10 * t),
                                     z3.Implies(e == e2, t == t2),
                                     z3.Implies(e < e2, t < t2), z3.Implies(e > e2, t > t2)))
            self.ufterms.setdefault('pow10', []).append((e, t))
        return t

    def once(self, t):
        k = t.get_id()
        if k in self.seen_terms:
            return False
        self.seen_terms[k] = t
        return True

    def fn(self, name, *ts):
        """Application of a mathematical function, with its axioms instantiated."""
        ts = tuple(z3.simplify(t) for t in ts)
        t = uf(name, len(ts))(*ts)
        if self.once(t):
            x = ts[0]
            F = self.fn
            if name == 'sqrt':
                self.fact(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
                self.fact((t == 0) == (x == 0))
            elif name in ('sin', 'cos'):
                o = F('cos' if name == 'sin' else 'sin', x)
                self.fact(t * t + o * o == 1)
            elif name == 'tan':
                s, c = F('sin', x), F('cos', x)
                self.fact(t * c == s)
            elif name in ('sinh', 'cosh'):
                o = F('cosh' if name == 'sinh' else 'sinh', x)
                c, s = (t, o) if name == 'cosh' else (o, t)
                self.fact(c * c - s * s == 1)
                self.fact(c >= 1)
            elif name == 'tanh':
                s, c = F('sinh', x), F('cosh', x)
                self.fact(t * c == s)
                self.fact(z3.And(t < 1, t > -1))
            elif name == 'exp':
                self.fact(t > 0)
                self.fact(z3.Implies(x == 0, t == 1))
            elif name == 'log10' and getattr(self, 'scale', None) is not None:
                n = z3.ToInt(t)
                self.fact(z3.Implies(x > 0, z3.And(self.scale.pow10(n) <= x, x < self.scale.pow10(n + 1))))
            elif name == 'log':
                self.fact(z3.Implies(x == 1, t == 0))
                self.fact(z3.Implies(x > 0, z3.And((t > 0) == (x > 1), (t < 0) == (x < 1))))
        return t


PYOPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
         '/': lambda a, b: a / b, '//': lambda a, b: a // b, '%': lambda a, b: a % b,   # native
         '**': lambda a, b: a ** b}   # native
PYCMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b,
         '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def _val(x):
    if z3.is_rational_value(x):
        f = Fr(x.numerator_as_long(), x.denominator_as_long())
        return repr(float(f)) if f.denominator != 1 or abs(f) > 2 ** 53 else str(f.numerator)
    if z3.is_int_value(x):
        return str(x.as_long())
    if z3.is_algebraic_value(x):
        a = x.approx(20)
        return repr(float(Fr(a.numerator_as_long(), a.denominator_as_long())))
    return str(x)
