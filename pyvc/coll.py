# -*- coding: utf-8 -*-
"""Unbounded collections and loop rules.

All statements are relative to one arbitrary (Skolem) variable v0 of the pre-state:

* a *symbolic map* (a real dict object, content described by MapSide) maps variables to numbers; only
  its entry at v0 is represented, the entries at other keys are arbitrary;
* a *linear list* (a real list object described by LinSide) is a list of (coefficient, LinearCombination)
  pairs of unknown length, represented by the sum  tot0 = SUM c * den(e)(v0)  and by its weight
  SUM w(e) (number of nodes, the termination measure);
* a *bag* is a list with one group of elements per key of a map.

Loop rules:
* for over a map: the body is executed once for an arbitrary key u != v0 (frame condition: it may only
  write under the key u or in objects created by the iteration; everything assigned is unknown
  afterwards) and, if v0 is present, once for v0; since v0 is arbitrary, this covers all iterations;
* for over a linear list: the body is executed for an arbitrary element (f, x); every represented total
  must change by k * f * den(x) with k independent of the element, so that the whole loop changes it by
  k * tot0;
* while over linear lists and maps: invariant "the sum of all represented totals is the initial one",
  measure: the total weight; the modified containers are havocked and one iteration is executed.
"""
import collections, types
import z3
from . import engine as EN
from .engine import (PathEnd, Unsupported, Restart, Sym, SFloat, SInt, SBool, SNum, is_num, rv, R, finite_const)
from . import ops
from .ops import Ops, SideMeth, SideView, SideIter, raw_lookup
from .interp import SGen, POISON, Frame
from .models import Machine

ZERO = z3.RealVal(0)


class MapSide(object):
    kind = 'map'

    def __init__(self, name, dom0, val0, others=True, factory=None, sample=None):
        self.name, self.dom0, self.val0, self.others, self.factory = name, dom0, val0, others, factory
        self.memo = {}
        self.sample = sample   # function giving a value for another key
        self.parents = None
        self.writes = self.parent_writes = 0
        self.size = None
        self.dom_init = None

    def snapshot(self):
        return (self.dom0, self.val0, self.others)


class LinSide(object):
    kind = 'lin'

    def __init__(self, name, tot, weight):
        self.name, self.tot, self.weight = name, tot, weight
        self.ne = None      # None: unknown; True/False
        self.at = {}        # id of another variable: its total (copies)

    def snapshot(self):
        return (self.tot, self.weight)


class BagSide(object):
    kind = 'bag'

    def __init__(self, name, u, v0):
        self.name, self.u, self.v0 = name, list(u), list(v0)


class LCInfo(object):
    """An arbitrary LinearCombination of the pre-state."""
    def __init__(self, name, den, w):
        self.name, self.den, self.w = name, den, w


# ------------------------------------------------------------------ construction

def setup(E):
    """Per-path state; defines v0."""
    import uncertainties.core as core
    E.lcinfo = {}
    E.sums = []
    E.sum_ord = 0
    E.loop_counts = {}
    if E.sum_exact is None:
        E.sum_exact = set()
    E.aware = 0
    E.phase = None
    E.v0 = new_variable(E, 'v0')
    return E.v0


def new_variable(E, name, std=None, nominal=None):
    import uncertainties.core as core
    v = object.__new__(core.Variable)
    E.keep.append(v)
    object.__setattr__(v, '_nominal_value', E.real(name + '.nominal') if nominal is None else nominal)
    if std is None:
        std = E.real(name + '.std_dev')
        E.fact(std.t >= 0)
    object.__setattr__(v, '_std_dev', SFloat(std.t, core.CallableStdDev) if isinstance(std, SFloat) else core.CallableStdDev(std))
    object.__setattr__(v, 'tag', None)
    lc = object.__new__(core.LinearCombination)
    E.keep.append(lc)
    d = {v: 1.}
    E.keep.append(d)
    object.__setattr__(lc, 'linear_combo', d)
    object.__setattr__(v, '_linear_part', lc)
    return v


def new_lc(E, name, mode=None):
    """An arbitrary LinearCombination, expanded or not (mode: None, 'exp', 'unexp')."""
    import uncertainties.core as core
    lc = object.__new__(core.LinearCombination)
    E.keep.append(lc)
    den = E.fresh('den_' + name)
    w = E.fresh('w_' + name, z3.IntSort())
    E.fact(w >= 1)
    E.lcinfo[id(lc)] = LCInfo(name, den, w)
    E.inputs['derivative of ' + name] = den
    done = []

    def lazy(E, o, attr):
        if attr == 'linear_combo' and not done:
            done.append(1)
            m = mode or ('exp' if E.choose(2, name) == 0 else 'unexp')
            if m == 'exp':
                object.__setattr__(o, 'linear_combo', map_for(E, name, den))
                E.fact(w == 1)
            else:
                object.__setattr__(o, 'linear_combo', new_lin(E, name, den, w - 1))
    E.abstract[id(lc)] = (lc, lazy)
    return lc


def map_for(E, name, den, plain=True):
    d = {} if plain else collections.defaultdict(float)
    E.keep.append(d)
    dom = E.fresh('dom_' + name, z3.BoolSort())
    E.fact(z3.Implies(z3.Not(dom), den == 0))
    E.side[id(d)] = MapSide(name, dom, SFloat(den))
    E.side[id(d)].dom_init = dom
    E.keep.append(E.side[id(d)])
    return d


def new_map(E, name, dom, val, factory=None, sample=None):
    d = {}
    E.keep.append(d)
    E.side[id(d)] = MapSide(name, dom, val, factory=factory, sample=sample)
    return d


def new_lin(E, name, tot, weight):
    l = []
    E.keep.append(l)
    E.side[id(l)] = LinSide(name, tot, weight)
    E.fact(weight >= 0)
    E.fact(z3.Implies(weight == 0, tot == 0))
    return l


def new_asf(E, name, mode=None, nominal=None):
    """An arbitrary AffineScalarFunc."""
    import uncertainties.core as core
    x = object.__new__(core.AffineScalarFunc)
    E.keep.append(x)
    object.__setattr__(x, '_nominal_value', E.real(name) if nominal is None else nominal)
    object.__setattr__(x, '_linear_part', new_lc(E, name, mode))
    return x


# ------------------------------------------------------------------ denotation

def slot(o, name):
    try:
        return object.__getattribute__(o, name)
    except AttributeError:
        return None


def complete(E, lc):
    """Every LinearCombination reachable from this one has its content."""
    c = slot(lc, 'linear_combo')
    if c is None:
        return id(lc) in E.lcinfo
    if id(c) in E.side or isinstance(c, dict):
        return True
    return all(complete(E, e) for f, e in c)


def den(E, lc):
    """den(lc)(v0) in the current state (Real term)."""
    c = slot(lc, 'linear_combo')
    if c is None:
        i = E.lcinfo.get(id(lc))
        if i is None:
            raise Unsupported('LinearCombination without content')
        return i.den
    return den_of(E, c)


def tterm(E, x):
    if isinstance(x, float) and not finite_const(x):
        raise Unsupported('non-finite coefficient')
    if not is_num(x):
        raise Unsupported('coefficient %r' % (x,))
    return E.term(x)


def den_of(E, c):
    s = E.side.get(id(c))
    if isinstance(s, MapSide):
        v = tterm(E, s.val0)
        if s.dom0 is True:
            return v
        if s.dom0 is False:
            return ZERO
        return z3.If(s.dom0, v, ZERO)
    if isinstance(s, LinSide):
        return s.tot
    if isinstance(c, dict):
        for k, v in c.items():
            if k is E.v0:
                return tterm(E, v)
        return ZERO
    if isinstance(c, (list, tuple, collections.deque)):
        t = ZERO
        for f, e in c:
            t = t + tterm(E, f) * den(E, e)
        return t
    raise Unsupported('linear_combo of type %s' % type(c).__name__)


def weight(E, lc):
    c = slot(lc, 'linear_combo')
    i = E.lcinfo.get(id(lc))
    if c is None:
        return i.w
    s = E.side.get(id(c))
    if isinstance(c, dict):
        return z3.IntVal(1)
    if isinstance(s, LinSide):
        return s.weight + 1
    t = z3.IntVal(1)
    for f, e in c:
        t = t + weight(E, e)
    return t


def coefs(E, lc):
    """{id of sub-LC or variable: coefficient} of a LinearCombination of concrete structure."""
    out = {}

    def add(k, v):
        if k in out:
            out[k] = E.num_binop('+', out[k], v) if isinstance(out[k], Sym) or isinstance(v, Sym) else out[k] + v
        else:
            out[k] = v

    def go(lc, f):
        c = slot(lc, 'linear_combo')
        if c is None or id(c) in E.side:
            add(id(lc), f)
        elif isinstance(c, dict):
            if len(c) == 1 and next(iter(c)) .__class__.__name__ == 'Variable' and slot(next(iter(c)), '_linear_part') is lc:
                add(id(lc), E.binop('*', f, next(iter(c.values()))))
                return
            for v, k in c.items():
                add(id(v._linear_part), E.binop('*', f, k))
        else:
            for k, e in c:
                go(e, E.binop('*', f, k))
    c = slot(lc, 'linear_combo')
    if c is None or id(c) in E.side:
        return {id(lc): 1.}
    if isinstance(c, dict):
        for v, k in c.items():
            add(id(slot(v, '_linear_part')), k)
        return out
    for k, e in c:
        if not is_num(k):
            raise Unsupported('coefficient %r' % (k,))
        ce = slot(e, 'linear_combo')
        if isinstance(ce, (dict, list, tuple)) and not ce and id(ce) not in E.side:
            continue   # no dependence on anything
        if isinstance(ce, (list, tuple)) and id(ce) not in E.side:
            for kk, vv in coefs(E, e).items():
                add(kk, E.binop('*', k, vv))
        else:
            add(id(e), k)
    return out


# ------------------------------------------------------------------ operations on side collections

def is_side(E, o):
    return id(o) in E.side


class Meth(SideMeth):
    def invoke(self, args, kwargs):
        E, o, n = self.E, self.o, self.name
        s = E.side[id(o)]
        f = getattr(self, s.kind + '_' + n, None)
        if f is None:
            raise Unsupported('%s() of a symbolic %s' % (n, s.kind))
        return f(E, o, s, *args, **kwargs)

    # maps
    def map_items(self, E, o, s): return View(E, o, 'items')
    def map_keys(self, E, o, s): return View(E, o, 'keys')
    def map_values(self, E, o, s): return View(E, o, 'values')
    map_iteritems, map_iterkeys, map_itervalues = map_items, map_keys, map_values

    def map_get(self, E, o, s, k, default=None):
        present, v = map_lookup(E, s, k)
        return v if present else default

    def map___contains__(self, E, o, s, k):
        return map_lookup(E, s, k)[0]

    def map___getitem__(self, E, o, s, k):
        return E.side_getitem(o, k)

    def map_copy(self, E, o, s):
        return copy_map(E, o, s)
    map___copy__ = map_copy

    def map_setdefault(self, E, o, s, k, default=None):
        present, v = map_lookup(E, s, k)
        if present:
            return v
        E.setitem(o, k, default)
        return default

    def map_update(self, E, o, s, m=None, **kw):
        if m is not None:
            E.dict_update(o, m)
        for k, v in kw.items():
            E.setitem(o, k, v)

    def map_pop(self, E, o, s, k, *d):
        present, v = map_lookup(E, s, k)
        E.log_write(o, ('item', k))
        s.writes += 1
        if not present:
            if d:
                return d[0]
            raise KeyError(k)
        if k is E.v0:
            s.dom0, s.val0 = False, 0.
        else:
            s.memo[id(k)] = (False, None)
        return v

    def map___len__(self, E, o, s):
        return E.side_len(o)

    # linear lists
    def lin_pop(self, E, o, s, i=None):
        if not E.side_truth(o):
            raise IndexError('pop from empty list')
        E.log_write(o, ('method', 'pop'))
        if i is not None and not isinstance(i, (int, SInt)):
            raise TypeError('index')
        if i is not None and i not in (0, -1):
            raise Unsupported('pop(%r)' % i)
        f, e = lin_element(E, s)
        nt = E.fresh('tot')
        nw = E.fresh('wt', z3.IntSort())
        E.fact(nt == s.tot - E.term(f) * E.lcinfo[id(e)].den)
        E.fact(z3.And(nw == s.weight - E.lcinfo[id(e)].w, nw >= 0, z3.Implies(nw == 0, nt == 0)))
        s.tot, s.weight, s.ne = nt, nw, None
        return (f, e)

    def lin_popleft(self, E, o, s):
        return self.lin_pop(E, o, s)

    def lin_append(self, E, o, s, x):
        E.log_write(o, ('method', 'append'))
        if not isinstance(x, tuple) and not isinstance(x, list) or len(x) != 2:
            raise Unsupported('append(%r) to a linear list' % (x,))
        f, e = x
        s.tot = s.tot + tterm(E, f) * den(E, e)
        s.weight = s.weight + weight(E, e)
        s.ne = True

    lin_appendleft = lin_append

    def lin_insert(self, E, o, s, i, x):
        return self.lin_append(E, o, s, x)

    def lin_extend(self, E, o, s, it):
        t = E.side.get(id(it))
        if isinstance(t, LinSide):
            E.log_write(o, ('method', 'extend'))
            s.tot, s.weight, s.ne = s.tot + t.tot, s.weight + t.weight, (True if s.ne else None)
            return
        it = E.get_iter(it)
        E.aware += 1
        try:
            while True:
                try:
                    x = E.iter_next(it, None, None)
                except StopIteration:
                    return
                self.lin_append(E, o, s, x)
        finally:
            E.aware -= 1

    def lin_clear(self, E, o, s):
        E.log_write(o, ('method', 'clear'))
        s.tot, s.weight, s.ne = ZERO, z3.IntVal(0), False

    def lin_copy(self, E, o, s):
        l = new_lin(E, s.name, s.tot, s.weight)
        E.side[id(l)].ne = s.ne
        return l

    def lin_reverse(self, E, o, s):
        E.log_write(o, ('method', 'reverse'))

    def lin___len__(self, E, o, s):
        return E.side_len(o)

    # bags
    def bag_append(self, E, o, s, x):
        E.log_write(o, ('method', 'append'))
        if E.phase == 'u':
            s.u.append(x)
        elif E.phase == 'v0':
            s.v0.append(x)
        else:
            raise Unsupported('append to a bag')

    # real lists
    def list_extend(self, *a):
        raise Unsupported('extend')


def lin_element(E, s):
    f = SFloat(E.fresh('c'))
    e = new_lc(E, s.name + '.e')
    return f, e


def copy_map(E, o, s):
    d = type(o)() if not isinstance(o, collections.defaultdict) else collections.defaultdict(o.default_factory)
    E.keep.append(d)
    E.born(d)
    n = MapSide(s.name, s.dom0, s.val0, s.others, s.factory, s.sample)
    n.memo = dict(s.memo)
    n.parents = ('copy', s)
    n.parent_writes = s.writes
    E.side[id(d)] = n
    return d


def other_value(E, s):
    if s.sample is not None:
        return s.sample(E)
    return SFloat(E.fresh('uval'))


def map_lookup(E, s, k):
    """(present, value) of key k."""
    if k is E.v0:
        if E.decide(s.dom0) if not isinstance(s.dom0, bool) else s.dom0:
            return True, s.val0
        return False, None
    if id(k) in s.memo:
        return s.memo[id(k)]
    r = (False, None)
    p = s.parents
    if p is not None and p[0] == 'copy' and s.others:
        if s.parent_writes != p[1].writes:
            raise Unsupported('lookup in a copy of a modified collection')
        r = map_lookup(E, p[1], k)
    elif p is not None and p[0] in ('and', 'or', 'sub') and p[1] is not None and p[2] is not None:
        if s.parent_writes != p[1].writes + p[2].writes:
            raise Unsupported('lookup in a set built from modified collections')
        a, b = map_lookup(E, p[1], k)[0], map_lookup(E, p[2], k)[0]
        r = ({'and': a and b, 'or': a or b, 'sub': a and not b}[p[0]], None)
    elif s.others and E.choose(2, 'other key present') == 0:
        r = (True, other_value(E, s))
    s.memo[id(k)] = r
    E.keep.append(k)
    return r


class View(SideView):
    def __init__(self, E, o, what):
        self.E, self.o, self.what = E, o, what

    def iterator(self):
        return MapSIter(self.E, self.o, self.what)

    def contains(self, x):
        if self.what == 'keys':
            return self.E.side_contains(self.o, x)
        raise Unsupported('in on a view')


def mark_present(E, s, u):
    """u is a key of s: it is one of the collections that s was built from, too."""
    p = s.parents
    if p is None:
        return
    src = {'copy': p[1:], 'and': p[1:], 'sub': p[1:2], 'or': ()}[p[0]]
    for t in src:
        if isinstance(t, MapSide):
            if id(u) not in t.memo:
                t.memo[id(u)] = (True, other_value(E, t))
            mark_present(E, t, u)
        elif t is not None:
            raise Unsupported('set operation with a concrete collection')


def stored_names(frame, head):
    """Names assigned in the loop whose head is instruction `head`."""
    ins = frame.info.ins
    last = frame.info.loops.get(head, head)
    out = set()
    for i in ins[head:last + 1]:
        if i.opname in ('STORE_FAST', 'STORE_DEREF', 'DELETE_FAST', 'STORE_FAST_MAYBE_NULL'):
            out.add(i.argval)
    return out


def poison(frame, names):
    for n in names:
        if n in frame.cells:
            frame.cells[n].cell_contents = POISON
        elif n in frame.locals:
            frame.locals[n] = POISON


class MapSIter(SideIter):
    """Iteration over a symbolic map (or a bag)."""

    def __init__(self, E, o, what):
        self.E, self.o, self.what = E, o, what
        self.state = 0
        self.acc = None         # local name -> (value before the loop, summands of another key, summands of v0)
        self.side = E.side[id(o)]

    def item(self, k, v):
        return {'items': (k, v), 'keys': k, 'values': v}[self.what]

    def unpack(self, n):
        raise Unsupported('unpacking of a symbolic map')

    def begin(self, frame, pc):
        E = self.E
        if frame is None or frame.code.co_flags & 0x20:
            if not E.aware:
                raise Unsupported('iteration over a symbolic map by a function that is not modelled')
        self.acc_start(frame, pc)
        self.mark = len(E.writes)
        self.births = set(id(x) for x in E.keep)
        self.birth0 = len(E.births)

    def acc_start(self, frame, pc):
        """Havoc of the local variables assigned in the loop; numbers are candidate accumulators."""
        if frame is None:
            return
        names = stored_names(frame, pc)
        if self.acc is None:
            self.acc = {n: (frame.locals[n], [], []) for n in names if is_num(frame.locals.get(n))}
        poison(frame, names)
        self.T = {}
        for n in self.acc:
            self.T[n] = self.E.fresh('T')
            frame.locals[n] = SFloat(self.T[n])

    def acc_end(self, frame, which):
        """Summand of each accumulator in the iteration that ends."""
        if frame is None:
            return
        for n in list(self.acc):
            v, T = frame.locals.get(n), self.T[n]
            if is_num(v):
                if isinstance(v, float) and not finite_const(v):
                    self.acc[n][which].append(v)
                    continue
                d = z3.simplify(self.E.term(v) - T, som=True)
                if not contains_const(d, [T]):
                    if not (z3.is_rational_value(d) and d.numerator_as_long() == 0):
                        self.acc[n][which].append(SFloat(d))
                    continue
            del self.acc[n]

    def acc_finish(self, frame, pc):
        E = self.E
        if frame is None or self.acc is None:
            return      # no iteration: no key at all
        poison(frame, stored_names(frame, pc))
        for n, (pre, u, v0) in (self.acc or {}).items():
            r = make_sum(E, 0, u, v0, (frame.code.co_name, frame.code.co_firstlineno, pc, self.occurrence, n))
            frame.locals[n] = r if isinstance(r, (Sym, float)) and isinstance(pre, (int, float)) and pre == 0 else E.binop('+', pre, r)

    def end(self, frame, pc):
        """Frame condition of the iteration on the arbitrary key u."""
        E = self.E
        self.acc_end(frame, 1)
        for o, kind in E.writes[self.mark:]:
            if id(o) not in self.births or o is self.u:
                if o is not self.u:
                    continue
            if kind[0] == 'item' and (kind[1] is self.u or E.births.get(id(kind[1]), -1) >= self.birth0 and id(kind[1]) not in self.births):
                s = E.side.get(id(o))
                if s is None:
                    if not isinstance(o, dict):
                        raise Unsupported('write to a %s in a loop over a map' % type(o).__name__)
                    val = o.get(E.v0)
                    has = E.v0 in o
                    extra = [k for k in o if k is not E.v0 and k is not self.u and id(k) in self.births]
                    if extra:
                        raise Unsupported('dict with several concrete keys')
                    n = MapSide('dict', has, val if has else 0., True, getattr(o, 'default_factory', None))
                    o.clear()
                    E.side[id(o)] = n
                else:
                    s.others = True
                continue
            if kind == ('method', 'append') and isinstance(o, list) and (E.side.get(id(o)) is None or E.side[id(o)].kind == 'bag'):
                if E.side.get(id(o)) is None:
                    n0 = self.lens.get(id(o))
                    if n0 != 0:
                        raise Unsupported('append to a non-empty list in a loop over a map')
                    b = BagSide('bag', list(o), [])
                    del o[:]
                    E.side[id(o)] = b
                continue
            raise Unsupported('a loop over a map modifies %s (%s)' % (type(o).__name__, kind))

    def step(self, frame, pc):
        E = self.E
        s = self.side
        if isinstance(s, BagSide):
            return self.bag_step(frame, pc)
        if self.state == 0:
            self.state = 1
            if frame is not None:
                k = (frame.code, pc)
                self.occurrence = E.loop_counts[k] = E.loop_counts.get(k, 0) + 1
            if s.others and E.choose(2, 'other keys') == 0:
                self.begin(frame, pc)
                self.u = new_variable(E, 'u%d' % len(E.keep)) if E.key_sample is None else E.key_sample(E)
                self.births.discard(id(self.u))
                self.lens = {id(x): len(x) for x in E.keep if isinstance(x, list)}
                if frame is not None:
                    for x in list(frame.locals.values()) + frame.stack:
                        if isinstance(x, (list, dict)) and id(x) not in self.births:
                            E.keep.append(x)
                            self.births.add(id(x))
                            if isinstance(x, list):
                                self.lens[id(x)] = len(x)
                v = other_value(E, s)
                s.memo[id(self.u)] = (True, v)
                mark_present(E, s, self.u)
                E.phase = 'u'
                self.ran_u = True
                return self.item(self.u, v)
        if self.state == 1:
            self.state = 2
            if getattr(self, 'ran_u', False):
                self.end(frame, pc)
            present = s.dom0 if isinstance(s.dom0, bool) else E.decide(s.dom0)
            if present:
                self.acc_start(frame, pc)
                self.ran_v0 = True
                E.phase = 'v0'
                return self.item(E.v0, s.val0)
        if self.state == 2 and getattr(self, 'ran_v0', False):
            self.acc_end(frame, 2)
        if self.state != 3:
            self.acc_finish(frame, pc)
        self.state = 3
        E.phase = None
        raise StopIteration

    def bag_step(self, frame, pc):
        E = self.E
        if not E.aware:
            raise Unsupported('iteration over a bag')
        s = self.side
        if self.state < len(s.u):
            self.state += 1
            E.phase = 'u'
            return s.u[self.state - 1]
        k = self.state - len(s.u)
        if k < len(s.v0):
            self.state += 1
            E.phase = 'v0'
            return s.v0[k]
        E.phase = None
        raise StopIteration


class LinSIter(SideIter):
    """Iteration over a linear list: linear-effect rule."""

    def __init__(self, E, o):
        self.E, self.o = E, o
        self.s = E.side[id(o)]
        self.state = 0

    def unpack(self, n):
        raise Unsupported('unpacking of a linear list')

    def step(self, frame, pc):
        E, s = self.E, self.s
        if (frame is None or frame.code.co_flags & 0x20) and not E.aware:
            raise Unsupported('iteration over a linear list by a function that is not modelled')
        if self.state == 0:
            self.state = 1
            if not E.side_truth(self.o):
                self.state = 2
                raise StopIteration
            if frame is not None:
                poison(frame, stored_names(frame, pc))
            self.src = (s.tot, s.weight)
            self.before = {}
            self.mark = len(E.writes)
            self.births = set(id(x) for x in E.keep)
            self.plain = {}
            if frame is not None:
                for x in list(frame.locals.values()) + frame.stack:
                    if isinstance(x, list) and id(x) not in E.side:
                        self.births.add(id(x))
                        self.plain[id(x)] = (x, len(x))
            for i, t in list(E.side.items()):
                if t is s:
                    continue
                if isinstance(t, MapSide):
                    t.writes += 1
                if isinstance(t, LinSide):
                    T, W = E.fresh('T'), E.fresh('W', z3.IntSort())
                    self.before[i] = (t, t.tot, t.weight, t.ne, T, W)
                    t.tot, t.weight, t.ne = T, W, (t.ne or None)
                    E.fact(W >= 0)
                elif isinstance(t, MapSide) and isinstance(t.val0, SFloat):
                    T = E.fresh('T')
                    self.before[i] = (t, t.dom0, t.val0, t.others, T, None)
                    self.dom_fresh = E.fresh('dom', z3.BoolSort())
                    t.val0 = SFloat(T)
                    if not isinstance(t.dom0, bool):
                        t.dom0 = z3.Or(t.dom0, self.dom_fresh)
            self.f, self.e = lin_element(E, s)
            return (self.f, self.e)
        if self.state == 1:
            self.state = 2
            self.finish()
            if frame is not None:
                poison(frame, stored_names(frame, pc))
        raise StopIteration

    def finish(self):
        E, s = self.E, self.s
        if (s.tot, s.weight) != self.src and not (s.tot.eq(self.src[0]) and s.weight.eq(self.src[1])):
            raise Unsupported('a loop modifies the list it iterates over')
        info = E.lcinfo[id(self.e)]
        F, D, W = self.f.t, info.den, info.w
        sides = set()
        grown = {}
        for o, kind in E.writes[self.mark:]:
            if id(o) not in self.births:
                continue
            t = E.side.get(id(o))
            if isinstance(t, LinSide) and kind[0] == 'method' and kind[1] in ('append', 'extend', 'insert', 'appendleft'):
                sides.add(id(o))
                continue
            if isinstance(t, MapSide) and kind[0] == 'item' and kind[1] is E.v0:
                sides.add(id(o))
                continue
            if t is None and id(o) in self.plain and kind in (('method', 'append'), ('method', 'extend')):
                grown[id(o)] = o
                continue
            raise Unsupported('a loop over a linear list modifies %s (%s)' % (type(o).__name__, kind))
        for i, o in grown.items():
            n = self.plain[i][1]
            for x in o:
                if not isinstance(x, (tuple, list)) or len(x) != 2 or not is_num(x[0]) or not type(x[1]).__name__ == "LinearCombination":
                    raise Unsupported('a loop over a linear list builds a list of other things')
            told, dt = sum_terms(E, o[:n]), sum_terms(E, o[n:])
            k = linear_coef(E, dt[0], [(F, D)], F)
            kw = linear_coef_int(E, dt[1], W)
            del o[:]
            ns = E.side[i] = LinSide('list', told[0] + k * self.src[0], told[1] + kw * self.src[1])
            ns.ne = None
            E.keep.append(o)
        for i, rec in self.before.items():
            t = rec[0]
            T = rec[4]
            if isinstance(t, LinSide):
                if i not in sides:
                    t.tot, t.weight, t.ne = rec[1:4]
                    continue
                k = linear_coef(E, t.tot - T, [(F, D)], T)
                kw = linear_coef_int(E, t.weight - rec[5], W)
                t.tot = rec[1] + k * self.src[0]
                t.weight = rec[2] + kw * self.src[1]
                t.ne = None
            else:
                if i not in sides:
                    t.dom0, t.val0, t.others = rec[1:4]
                    continue
                k = linear_coef(E, tterm(E, t.val0) - T, [(F, D)], T)
                t.val0 = SFloat(tterm(E, rec[2]) + k * self.src[0])
                if not isinstance(t.dom0, bool):
                    t.dom0 = E.fresh('dom', z3.BoolSort())
                    E.fact(z3.Implies(rec[1], t.dom0) if not isinstance(rec[1], bool) else z3.BoolVal(True))
                t.others = True


def sum_terms(E, terms):
    t, w = ZERO, z3.IntVal(0)
    for f, e in terms:
        t = t + tterm(E, f) * den(E, e)
        w = w + weight(E, e)
    return t, w


def contains_const(t, cs):
    ids = [c.get_id() for c in cs]
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in ids:
            return True
        st.extend(x.children())
    return False


def linear_coef(E, delta, fd, T):
    F, D = fd[0]
    one = z3.RealVal(1)
    k = z3.simplify(z3.substitute(delta, (F, one), (D, one)))
    if contains_const(k, [F, D, T]):
        raise Unsupported('the effect of a loop over a linear list is not linear')
    s = z3.Solver()
    s.set('timeout', 4000)
    s.add(*E.facts)
    s.add(delta != k * F * D)
    d = z3.simplify(delta - k * F * D, som=True)
    if not (z3.is_rational_value(d) and d.numerator_as_long() == 0) and s.check() != z3.unsat:
        raise Unsupported('the effect of a loop over a linear list is not linear')
    return k


def linear_coef_int(E, delta, W):
    k = z3.simplify(z3.substitute(delta, (W, z3.IntVal(1))))
    d = z3.simplify(delta - k * W)
    if contains_const(k, [W]) or not (z3.is_int_value(d) and d.as_long() == 0):
        raise Unsupported('the effect of a loop on the number of terms is not linear')
    return k


# ------------------------------------------------------------------ engine hooks

class CollMachine(Machine):
    key_sample = None

    def begin_path(self, prefix):
        Machine.begin_path(self, prefix)
        self.lcinfo = {}
        self.aware = 0
        self.phase = None
        self.sums = []
        self.sum_ord = 0
        self.loop_counts = {}
        self.copies = []

    def side_getattr(self, o, name):
        if name == 'default_factory':
            return o.default_factory
        if not hasattr(type(o), name):
            raise AttributeError(name)
        return Meth(self, o, name)

    def side_setattr(self, o, name, v):
        if name == 'default_factory' and isinstance(o, collections.defaultdict):
            o.default_factory = v
            self.side[id(o)].factory = v
            return
        raise Unsupported('attribute %s of a symbolic collection' % name)

    def side_truth(self, o):
        s = self.side[id(o)]
        if isinstance(s, LinSide):
            if s.ne is None:
                b = self.decide(s.weight > 0)
                s.ne = b
            return s.ne
        if isinstance(s, MapSide):
            if s.dom0 is True or (s.dom0 is not False and self.decide(s.dom0)):
                return True
            if not s.others:
                return False
            if s.size is None:
                s.size = self.choose(2, 'nonempty') == 0
                if not s.size:
                    s.others = False
            return s.size
        raise Unsupported('truth of a bag')

    def side_len(self, o):
        s = self.side[id(o)]
        n = self.fresh('len', z3.IntSort())
        self.fact(n >= 0)
        if isinstance(s, LinSide):
            self.fact((n == 0) == (s.weight == 0))
        elif isinstance(s, MapSide):
            if s.dom0 is not False:
                self.fact(z3.Implies(s.dom0 if s.dom0 is not True else z3.BoolVal(True), n >= 1))
        return SInt(n)

    def side_contains(self, o, x):
        s = self.side[id(o)]
        if isinstance(s, MapSide):
            return map_lookup(self, s, x)[0]
        raise Unsupported('in on a symbolic list')

    def side_getitem(self, o, k):
        s = self.side[id(o)]
        if isinstance(s, MapSide):
            present, v = map_lookup(self, s, k)
            if present:
                return v
            f = getattr(o, 'default_factory', None)
            if f is None:
                raise KeyError(k)
            v = self.call(f, (), {})
            self.setitem(o, k, v)
            return v
        if isinstance(s, LinSide) and isinstance(k, slice) and k == slice(None, None, None):
            return Meth(self, o, 'copy').invoke((), {})
        raise Unsupported('subscript of a symbolic list')

    def side_setitem(self, o, k, v):
        s = self.side[id(o)]
        if not isinstance(s, MapSide):
            raise Unsupported('item assignment in a symbolic list')
        s.writes += 1
        if k is self.v0:
            s.dom0, s.val0 = True, v
        else:
            s.memo[id(k)] = (True, v)
            self.keep.append(k)
            s.others = True

    def list_extend(self, l, it):
        if id(l) not in self.side and isinstance(self.side.get(id(it)), LinSide):
            for x in l:
                if not isinstance(x, (tuple, list)) or len(x) != 2 or not is_num(x[0]) or type(x[1]).__name__ != 'LinearCombination':
                    raise Unsupported('extension of a list of other things by linear terms')
            t, w = sum_terms(self, l)
            ns = self.side[id(l)] = LinSide('list', t, w)
            ns.ne = True if l else None
            self.keep.append(l)
            del l[:]
        return Machine.list_extend(self, l, it)

    def side_update(self, d, m):
        s, t = self.side.get(id(d)), self.side.get(id(m))
        if t is None:
            for x in (self.iterate(m) if not isinstance(m, dict) else m.items()):
                k, v = self.iterate(x)
                self.setitem(d, k, v)
            return
        if not isinstance(t, MapSide) or not isinstance(d, dict):
            raise Unsupported('update with a symbolic %s' % t.kind)
        self.log_write(d, ('method', 'update'))
        if s is None:
            if any(k is not self.v0 for k in d):
                raise Unsupported('update of a dict with concrete keys')
            s = self.side[id(d)] = MapSide('dict', self.v0 in d, d.get(self.v0, 0.), False, getattr(d, 'default_factory', None))
            d.clear()
            self.keep.append(d)
            fresh = s.dom0 is False
        else:
            fresh = False
        s.writes += 1
        if fresh:
            s.dom0, s.val0, s.others, s.sample, s.memo = t.dom0, t.val0, t.others, t.sample, dict(t.memo)
            s.parents, s.parent_writes = ('copy', t), t.writes
            return
        if s.memo or t.memo or s.sample is not None or t.sample is not None:
            raise Unsupported('update of a symbolic dict')
        if self.decide(t.dom0) if not isinstance(t.dom0, bool) else t.dom0:
            s.dom0, s.val0 = True, t.val0
        s.others = s.others or t.others

    def side_iter(self, o):
        s = self.side[id(o)]
        if isinstance(s, LinSide):
            return LinSIter(self, o)
        return MapSIter(self, o, 'keys')

    def side_reversed(self, o):
        return self.side_iter(o)

    def side_build(self, cls, args, kwargs):
        o = args[0]
        s = self.side.get(id(o))
        if isinstance(s, LinSide) and cls in (list, collections.deque) and len(args) == 1:
            return Meth(self, o, 'copy').invoke((), {})
        if isinstance(s, MapSide) and cls in (dict,) and len(args) == 1:
            return copy_map(self, {}, s) if not isinstance(o, collections.defaultdict) else copy_map(self, {}, s)
        if cls in (set, frozenset) and isinstance(s, MapSide):
            d = copy_map(self, {}, s)
            return KeySet(self, d)
        if cls in (set, frozenset) and isinstance(o, View) and o.what == 'keys':
            return KeySet(self, copy_map(self, {}, self.side[id(o.o)]))
        if cls is list and isinstance(o, View):
            v = View(self, copy_map(self, {}, self.side[id(o.o)]), o.what)
            return v
        if cls is collections.defaultdict and len(args) == 2 and isinstance(self.side.get(id(args[1])), MapSide):
            d = copy_map(self, collections.defaultdict(args[0]), self.side[id(args[1])])
            return d
        return Machine.side_build(self, cls, args, kwargs)

    # -------------------------------------------------------------- while loops
    def while_head(self, frame, n):
        st = frame.loopstate.get(n)
        if st is not None:
            return
        site = (frame.code, n)
        info = self.loopinfo.get(site)
        st = frame.loopstate[n] = dict(mark=len(self.writes), info=info, count=0)
        if info is None:
            return
        # havoc
        cont = []
        for loc in info:
            o = resolve(self, frame, loc)
            if o is None:
                raise Unsupported('loop rule: a container cannot be located (%s)' % (loc,))
            if any(o is c for c in cont):
                continue
            cont.append(o)
        names = stored_names(frame, n)
        keepn = set(l[1] for l in info if l[0] == 'local')
        total = ZERO
        nonempty = set()
        for o in cont:
            s = self.side.get(id(o))
            if isinstance(s, LinSide) and (frame.code, n, 'any') not in self.loopinfo and (
                    s.ne or self.check(s.weight <= 0) == z3.unsat):
                nonempty.add(id(o))
            if s is None:
                if isinstance(o, dict):
                    others = [k for k in o if k is not self.v0]
                    if others:
                        raise Unsupported('loop rule: dict with concrete keys')
                    s = self.side[id(o)] = MapSide('acc', self.v0 in o, o.get(self.v0, 0.), False,
                                                   getattr(o, 'default_factory', None))
                    o.clear()
                elif isinstance(o, list):
                    t = den_of(self, o)
                    w = z3.IntVal(0)
                    for f, e in o:
                        w = w + weight(self, e)
                    s = self.side[id(o)] = LinSide('work', t, w)
                    s.ne = bool(o)
                    if s.ne and (frame.code, n, 'any') not in self.loopinfo:
                        nonempty.add(id(o))
                    del o[:]
                else:
                    raise Unsupported('loop rule: %s' % type(o).__name__)
                self.keep.append(o)
            total = total + den_of(self, o)
        st['total'] = total
        wt0 = z3.IntVal(0)
        for o in cont:
            if isinstance(self.side[id(o)], LinSide):
                wt0 = wt0 + self.side[id(o)].weight
        now = ZERO
        wt = z3.IntVal(0)
        st['cond'] = []
        for o in cont:
            s = self.side[id(o)]
            if isinstance(s, LinSide):
                s.tot, s.weight = self.fresh('tot'), self.fresh('wt', z3.IntSort())
                self.fact(s.weight >= 0)
                self.fact(z3.Implies(s.weight == 0, s.tot == 0))
                s.ne = None
                if id(o) in nonempty:
                    # candidate invariant: not empty when the body is entered
                    self.fact(s.weight > 0)
                    s.ne = True
                    st['cond'].append(s)
                now = now + s.tot
                wt = wt + s.weight
            else:
                s.dom0 = self.fresh('dom', z3.BoolSort())
                v = self.fresh('acc')
                self.fact(z3.Implies(z3.Not(s.dom0), v == 0))
                s.val0 = SFloat(v)
                s.others = True
                s.memo = {}
                now = now + z3.If(s.dom0, v, ZERO)
        self.fact(now == total)
        self.fact(wt <= wt0)        # the measure decreases in each iteration
        st['cont'], st['weight'] = cont, wt
        poison(frame, names - keepn)

    def while_back(self, frame, tgt):
        st = frame.loopstate.get(tgt)
        if st is None:
            return
        if st['info'] is None:
            # plain execution, or first pass of the loop rule
            locs = []
            lin = False
            for o, kind in self.writes[st['mark']:]:
                if isinstance(o, (list, dict)):
                    l = locate(self, frame, o)
                    if l is not None and l not in locs:
                        locs.append(l)
                    if isinstance(self.side.get(id(o)), LinSide):
                        lin = True
            if lin:
                self.loopinfo[(frame.code, tgt)] = locs
                raise Restart
            st['count'] += 1
            if st['count'] > 40:
                raise Unsupported('loop without an invariant in %s' % frame.code.co_name)
            return
        now = ZERO
        wt = z3.IntVal(0)
        for loc in st['info']:
            o = resolve(self, frame, loc)
            if not any(o is c for c in st['cont']):
                raise Unsupported('loop rule: a container was replaced')
        for o, kind in self.writes[st['mark']:]:
            pass
        for o in st['cont']:
            s = self.side[id(o)]
            now = now + den_of(self, o)
            if isinstance(s, LinSide):
                wt = wt + s.weight
        for s in st['cond']:
            if self.check(s.weight <= 0) != z3.unsat:
                # not invariant: the loop rule is started again without it
                self.loopinfo[(frame.code, tgt, 'any')] = True
                raise Restart
        self.ensure('loop invariant (sum of the totals is conserved) of %s' % frame.code.co_name, now == st['total'], inv=True)
        self.ensure('loop measure of %s decreases' % frame.code.co_name, z3.And(wt < st['weight'], wt >= 0), inv=True)
        for s in st['cond']:
            self.ensure('loop condition of %s' % frame.code.co_name, s.weight > 0, inv=True)
        raise PathEnd


class KeySet(Sym):
    """Set of the keys of a symbolic map."""
    pytype = set

    def __init__(self, E, d):
        self.E, self.d = E, d

    def sym_iter(self, E):
        return MapSIter(E, self.d, 'keys')

    def sym_contains(self, E, x):
        return E.side_contains(self.d, x)

    def sym_truth(self, E):
        return z3.BoolVal(E.side_truth(self.d))

    def sym_len(self, E):
        return E.side_len(self.d)

    def sym_attr(self, E, name):
        if name in ('intersection', '__and__'):
            return KSMeth(self, 'and')
        if name in ('union', '__or__'):
            return KSMeth(self, 'or')
        if name in ('copy',):
            return KSMeth(self, 'copy')
        raise Unsupported('set.%s' % name)

    def sym_binop(self, E, op, other, refl):
        if op in '&|':
            return setop(E, {'&': 'and', '|': 'or'}[op], self, other)
        if op == '-':
            return setop(E, 'sub', *((other, self) if refl else (self, other)))
        return NotImplemented


class KSMeth(Sym):
    pytype = types.BuiltinMethodType

    def __init__(self, ks, op):
        self.ks, self.op = ks, op

    def sym_call(self, E, args, kwargs):
        r = self.ks
        if self.op == 'copy':
            return KeySet(E, copy_map(E, {}, E.side[id(self.ks.d)]))
        for a in args:
            r = setop(E, self.op, r, a)
        return r


def keys_dom(E, x):
    if isinstance(x, KeySet):
        x = x.d
    if isinstance(x, View):
        x = x.o
    s = E.side.get(id(x))
    if isinstance(s, MapSide):
        return (z3.BoolVal(s.dom0) if isinstance(s.dom0, bool) else s.dom0), s.others, s
    if isinstance(x, (dict, set, frozenset)):
        keys = list(x)
        return z3.BoolVal(any(k is E.v0 for k in keys)), any(k is not E.v0 for k in keys), None
    raise Unsupported('set operation on %r' % (x,))


def setop(E, op, a, b):
    da, oa, sa = keys_dom(E, a)
    db, ob, sb = keys_dom(E, b)
    if sa is None or sb is None:
        # one of the sides is an ordinary collection
        ca, cb = [list(x) if t is None else None for x, t in ((a, sa), (b, sb))]
        if op == 'and' and sa is None:
            return set([k for k in ca if (map_lookup(E, sb, k)[0] if sb is not None else any(k is q for q in cb))])
        if op == 'and':
            return set([k for k in cb if map_lookup(E, sa, k)[0]])
        if op == 'sub' and sa is None:
            return set([k for k in ca if not map_lookup(E, sb, k)[0]])
        if op == 'or' and any(k is not E.v0 for k in (ca or []) + (cb or [])):
            raise Unsupported('union with an ordinary collection')
    if op == 'and':
        dom, oth = z3.And(da, db), oa and ob
    elif op == 'or':
        dom, oth = z3.Or(da, db), oa or ob
    else:
        dom, oth = z3.And(da, z3.Not(db)), oa
    d = {}
    E.keep.append(d)
    m = E.side[id(d)] = MapSide('set', dom, None, oth)
    m.parents = (op, sa, sb)
    m.parent_writes = sum(t.writes for t in (sa, sb) if t is not None)
    return KeySet(E, d)


def locate(E, frame, o):
    for n, v in frame.locals.items():
        if v is o:
            return ('local', n)
    for n, c in frame.cells.items():
        try:
            if c.cell_contents is o:
                return ('cell', n)
        except ValueError:
            pass
    for n, v in frame.locals.items():
        if v is POISON or isinstance(v, Sym) or isinstance(v, (int, float, str, list, dict, tuple, type(None))):
            continue
        for cls in type(v).__mro__:
            sl = cls.__dict__.get('__slots__', ())
            for a in ((sl,) if isinstance(sl, str) else sl):
                if slot(v, a) is o:
                    return ('attr', n, a)
        for a, w in getattr(v, '__dict__', {}).items():
            if w is o:
                return ('attr', n, a)
    return None


def resolve(E, frame, loc):
    if loc[0] == 'local':
        return frame.locals.get(loc[1])
    if loc[0] == 'cell':
        return frame.cells[loc[1]].cell_contents
    o = frame.locals.get(loc[1])
    lazy = E.abstract.get(id(o))
    if lazy is not None and lazy[0] is o:
        lazy[1](E, o, loc[2])       # not accessed yet
    return slot(o, loc[2])


# ------------------------------------------------------------------ sums

def sum_hook(E, it, acc):
    """sum() of a generator over a symbolic map; None if `it` turns out to be of concrete structure."""
    E.aware += 1
    E.phase = None
    E.sum_ord += 1
    where = E.sum_ord
    vals = []
    sym = False
    try:
        while True:
            E.phase = None if not sym else E.phase
            try:
                v = E.iter_next(it, None, None)
            except StopIteration:
                break
            if E.phase is not None:
                sym = True
            vals.append((E.phase if side_driven(E, it) else None, v))
    finally:
        E.aware -= 1
    if not side_driven(E, it):
        for p, v in vals:
            acc = E.binop('+', acc, v)
        return (acc,)
    E.phase = None
    u = [v for p, v in vals if p == 'u']
    v0 = [v for p, v in vals if p == 'v0']
    return (make_sum(E, acc, u, v0, where),)


def side_driven(E, it):
    """Is the iterator driven by a symbolic collection?"""
    if isinstance(it, SideIter):
        return True
    if isinstance(it, SGen):
        f = it.frame
        for x in list(f.stack) + list(f.locals.values()):
            if isinstance(x, SideIter):
                it.was_side = True
            elif isinstance(x, (SGen, ops.MapIter)) and x is not it and side_driven(E, x):
                it.was_side = True
        return getattr(it, 'was_side', False)
    if isinstance(it, ops.MapIter):
        return any(side_driven(E, x) for x in it.its)
    return False


def make_sum(E, acc, u, v0, where):
    """The sum over all keys of a summand known at v0 (list v0) and at an arbitrary other key (list u)."""
    if not (isinstance(acc, (int, float)) and acc == 0):
        raise Unsupported('sum with a non-zero start over a symbolic collection')
    # candidate: only v0 contributes to this sum (dropped if an arbitrary other key ever contributes, on any path)
    key = ('other keys contribute', where)
    for x in u + v0:
        if not is_num(x):
            raise Unsupported('sum of %r' % (x,))
    if any(isinstance(x, Sym) or x != 0 for x in u):
        if key not in E.loopinfo:
            E.loopinfo[key] = True
            if key in E.sum_exact:
                raise Restart
    elif key not in E.loopinfo:
        E.sum_exact.add(key)
        for x in v0:
            acc = E.binop('+', acc, x)
        return acc
    rec = dict(u=u, v0=v0, result=None)
    E.sums.append(rec)
    nonfin = [x for x in u + v0 if isinstance(x, float) and not finite_const(x)]
    for x in u + v0:
        if not is_num(x):
            raise Unsupported('sum of %r' % (x,))
    nonneg = True
    for x in u + v0:
        if x in nonfin:
            if not (x != x or x > 0):
                nonneg = False
            continue
        if E.check(z3.Not(E.term(x) >= 0)) != z3.unsat:
            nonneg = False
    if nonfin:
        nan = float('nan')
        if any(x != x for x in nonfin):
            r = nan
        elif E.choose(2, 'sum') == 0:
            r = nonfin[0]
        else:
            r = nan
        rec['result'] = r
        return r
    k = E.choose(3 if E.sum_nonfinite else 1, 'sum')
    if k:
        # another term is NaN or infinite
        r = (float('nan'), float('inf'))[k - 1]
        rec['result'] = r
        return r
    S = E.fresh('SUM')
    t0 = ZERO
    for x in v0:
        t0 = t0 + E.term(x)
    if nonneg:
        E.fact(S >= t0)
        E.fact(S >= 0)
        for x in u:
            E.fact(S >= t0 + E.term(x))
    rec['result'] = SFloat(S)
    rec['v0term'] = t0
    rec['nonneg'] = nonneg
    return SFloat(S)


CollMachine.sum_nonfinite = False
CollMachine.sum_exact = None


# ------------------------------------------------------------------ deep copies

def m_deepcopy(E, args, kw):
    """copy.deepcopy() of a symbolic map (contract of the copy module: keys and values are deep-copied with the same
    memo); anything else is executed."""
    import copy
    x = args[0]
    s = E.side.get(id(x))
    if s is None:
        return E.run_function(copy.deepcopy, args, kw, 0)
    memo = args[1] if len(args) > 1 else kw.get('memo')
    if memo is None:
        memo = {}
    if id(x) in memo:
        return memo[id(x)]
    E.assumptions['copy.deepcopy of a dict or list deep-copies its keys and values'] = 1
    r = transfer(E, x, lambda k: E.call(copy.deepcopy, (k, memo), {}))
    memo[id(x)] = r
    return r


def transfer(E, x, go):
    """Copy of a symbolic collection: go(k) is the copy of an object k."""
    s = E.side[id(x)]
    if isinstance(s, LinSide):
        # each element is copied: same coefficients for the copies of the variables (the copy of an element is used
        # through the same contract: it has fewer terms)
        v = go(E.v0)
        l = new_lin(E, s.name + ' copy', ZERO if v is not E.v0 else s.tot, s.weight)
        n = E.side[id(l)]
        n.ne = s.ne
        E.born(l)
        if v is not E.v0:
            n.at[id(v)] = s.tot
            E.keep.append(v)
        E.copies.append((E.v0, v, None, None, l))
        return l
    if not isinstance(s, MapSide):
        raise Unsupported('copy of a symbolic collection')
    d = collections.defaultdict(x.default_factory) if isinstance(x, collections.defaultdict) else {}
    E.keep.append(d)
    E.born(d)
    n = MapSide(s.name + ' copy', False, 0., False)
    E.side[id(d)] = n
    present = s.dom0 if isinstance(s.dom0, bool) else E.decide(s.dom0)
    keys = []
    if present:
        keys.append((E.v0, s.val0))
    if s.others and E.choose(2, 'other keys') == 0:
        u = new_variable(E, 'u%d' % len(E.keep))
        from .engine import Opaque
        object.__setattr__(u, 'tag', Opaque('tag of u'))
        v = other_value(E, s)
        s.memo[id(u)] = (True, v)
        keys.append((u, v))
    for k, v in keys:
        k2 = go(k)
        v2 = go(v)
        E.copies.append((k, k2, v, v2, d))
        if k2 is E.v0:
            n.dom0, n.val0 = True, v2
        else:
            n.memo[id(k2)] = (True, v2)
            E.keep.append(k2)
            n.others = True
    return d


def den_at(E, lc, k):
    """Coefficient of a variable k other than v0 (created during the path) in a linear combination."""
    c = slot(lc, 'linear_combo')
    if c is None:
        return ZERO     # an arbitrary part of the pre-state: it does not contain k
    s = E.side.get(id(c))
    if isinstance(s, MapSide):
        r = s.memo.get(id(k))
        return tterm(E, r[1]) if r and r[0] else ZERO
    if isinstance(s, LinSide):
        return s.at.get(id(k), ZERO)
    if isinstance(c, dict):
        for q, v in c.items():
            if q is k:
                return tterm(E, v)
        return ZERO
    t = ZERO
    for f, e in c:
        t = t + tterm(E, f) * den_at(E, e, k)
    return t


import copy as _copy
from .models import MODELS as _MODELS
_MODELS[_copy.deepcopy] = m_deepcopy
