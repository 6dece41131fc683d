"""Solver back ends: z3 (default), z3 nlsat tactic, cvc5."""
import time
import z3

STATS = {}


def _note(b, dt):
    n, t = STATS.get(b, (0, 0.))
    STATS[b] = (n + 1, t + dt)


def prove(E, cond):
    """(status, backend, model-inputs, detail) for  facts |- cond."""
    t0 = time.time()
    if z3.is_true(z3.simplify(cond)):
        dt = time.time() - t0
        E.solver_time += dt
        _note('z3 (simplifier)', dt)
        return 'discharged', 'z3 (simplifier)', None, None
    # 0. identity of polynomials, or an equality that is a known fact
    if ring(E, cond):
        dt = time.time() - t0
        E.solver_time += dt
        _note('polynomial normal form', dt)
        return 'discharged', 'polynomial normal form', None, None
    neg = z3.Not(cond)
    # 1. default solver on the path's facts
    s = z3.Solver()
    s.set('timeout', E.GOAL_TIMEOUT)
    s.add(*E.facts)
    s.add(neg)
    r = s.check()
    dt = time.time() - t0
    E.solver_time += dt
    _note('z3', dt)
    if r == z3.unsat:
        return 'discharged', 'z3', None, None
    if r == z3.sat:
        return 'refuted', 'z3', E.model_inputs(s.model()), None
    # 2. nlsat, with uninterpreted applications replaced by fresh reals (weaker facts: only unsat counts)
    t1 = time.time()
    try:
        fs = [purify(f) for f in E.facts + [neg]]
        fs += congruences(fs)
        g = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'qfnra-nlsat').solver()
        g.set('timeout', E.GOAL_TIMEOUT)
        g.add(*[f[0] if isinstance(f, tuple) else f for f in fs])
        r2 = g.check()
    except z3.Z3Exception as e:
        r2 = z3.unknown
    dt = time.time() - t1
    E.solver_time += dt
    _note('z3-nlsat', dt)
    if r2 == z3.unsat:
        return 'discharged', 'z3-nlsat', None, None
    # 3. cvc5
    t2 = time.time()
    r3 = cvc5_check(E.facts + [neg], E.GOAL_TIMEOUT)
    dt = time.time() - t2
    E.solver_time += dt
    _note('cvc5', dt)
    if r3 == 'unsat':
        return 'discharged', 'cvc5', None, None
    if r2 == z3.sat and False:
        return 'refuted', 'z3-nlsat', None, None
    return 'unknown', None, None, 'z3: %s' % s.reason_unknown()


_pur = {}


def purify(f):
    """Replaces uninterpreted function applications by constants (one per distinct term)."""
    cache = {}

    def go(t):
        k = t.get_id()
        if k in cache:
            return cache[k]
        if z3.is_app(t) and t.num_args():
            args = [go(c) for c in t.children()]
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r = z3.Const('pur_%s' % t.sexpr(), t.sort())
            else:
                r = t.decl()(*args) if t.decl().arity() == len(args) else rebuild(t, args)
        else:
            r = t
        cache[k] = r
        return r
    return go(f)


def rebuild(t, args):
    k = t.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*args)
    if k == z3.Z3_OP_OR:
        return z3.Or(*args)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*args)
    if k == z3.Z3_OP_MUL:
        return z3.Product(*args)
    return z3.substitute(t, *[(c, a) for c, a in zip(t.children(), args) if not c.eq(a)])


def congruences(fs):
    return []


def cvc5_check(formulas, timeout_ms):
    try:
        import cvc5
    except ImportError:
        return 'unknown'
    s = z3.Solver()
    s.add(*formulas)
    txt = s.to_smt2()
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', str(timeout_ms))
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        res = 'unknown'
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(slv, sm)
            out = str(out).strip()
            if out in ('sat', 'unsat', 'unknown'):
                res = out
        return res
    except Exception as e:
        return 'unknown'


class _TooBig(Exception):
    pass


def poly(t, memo, limit=4000):
    """Polynomial normal form of a real term: {sorted tuple of atom ids: coefficient}; other operators are atoms."""
    from fractions import Fraction as Fr
    k = t.get_id()
    if k in memo:
        return memo[k][0]
    d = t.decl().kind()
    if z3.is_rational_value(t) or z3.is_int_value(t):
        v = Fr(t.as_fraction()) if z3.is_rational_value(t) else Fr(t.as_long())
        r = {(): v} if v else {}
    elif d == z3.Z3_OP_ADD:
        r = {}
        for c in t.children():
            for m, v in poly(c, memo).items():
                r[m] = r.get(m, 0) + v
        r = {m: v for m, v in r.items() if v}
    elif d in (z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        cs = t.children()
        r = {}
        for i, c in enumerate(cs):
            sg = -1 if i or len(cs) == 1 else 1
            for m, v in poly(c, memo).items():
                r[m] = r.get(m, 0) + sg * v
        r = {m: v for m, v in r.items() if v}
    elif d == z3.Z3_OP_MUL or d == z3.Z3_OP_DIV and z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction() != 0:
        cs = t.children()
        if d == z3.Z3_OP_DIV:
            r = {m: v / Fr(cs[1].as_fraction()) for m, v in poly(cs[0], memo).items()}
        else:
            r = {(): Fr(1)}
            for c in cs:
                p = poly(c, memo)
                q = {}
                for m1, v1 in r.items():
                    for m2, v2 in p.items():
                        m = tuple(sorted(m1 + m2))
                        q[m] = q.get(m, 0) + v1 * v2
                        if len(q) > limit:
                            raise _TooBig()
                r = {m: v for m, v in q.items() if v}
    else:
        r = {(k,): Fr(1)}
    memo[k] = (r, t)
    if len(r) > limit:
        raise _TooBig()
    return r


def _as_equality(f):
    """f as one equality of real terms: `Or(a == b, c == d)` (what the simplifier makes of a product equal to zero) is
    (a - b) * (c - d) == 0; None when f has another form."""
    if z3.is_eq(f) and z3.is_real(f.arg(0)):
        return f
    if z3.is_or(f):
        parts = [_as_equality(c) for c in f.children()]
        if all(p is not None for p in parts):
            t = parts[0].arg(0) - parts[0].arg(1)
            for p in parts[1:]:
                t = t * (p.arg(0) - p.arg(1))
            return t == 0
    return None


def ring(E, cond):
    """Is the condition a conjunction of equalities of real terms that hold as polynomial identities or are (up to a
    constant factor) facts of the path?"""
    if z3.is_and(cond):
        return all(ring(E, c) for c in cond.children())
    if not z3.is_eq(cond) or not z3.is_real(cond.arg(0)):
        return False
    memo = {}
    try:
        g = poly(cond.arg(0) - cond.arg(1), memo)
        if not g:
            return True
        k0 = max(g)
        g = {m: v / g[k0] for m, v in g.items()}
        for f in E.facts[-200:]:
            if z3.is_not(f) and z3.is_not(f.arg(0)):
                f = f.arg(0).arg(0)
            if z3.is_not(f) and z3.is_distinct(f.arg(0)) and f.arg(0).num_args() == 2:
                f = f.arg(0).arg(0) == f.arg(0).arg(1)
            f = _as_equality(f)
            if f is not None:
                p = poly(f.arg(0) - f.arg(1), memo)
                if len(p) == len(g) and k0 in p and all(p.get(m) == v * p[k0] for m, v in g.items()):
                    return True
    except _TooBig:
        pass
    return False
