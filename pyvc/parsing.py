# -*- coding: utf-8 -*-
"""Texts made of literals and runs of digits: string operations, regular expressions, float() and int().

Tokens:  digs (name, value, length): a run of ASCII digits of unknown value >= 0 and length >= 1;
         sdigs (digs): the same digits as superscripts;  spaces: a run of spaces;
         flt (value): the repr() of a float, with its sign.
An operation implemented in C (str methods, re, comparisons) is executed on several instances of the text (runs of
different lengths and digits); its result must have the same structure for all of them, and is mapped back to tokens."""
import re
import z3
from . import engine as EN
from .engine import SFloat, SInt, SNum, Sym, Unsupported, rv
from .strings import SStr, Tok, simp

SUP = dict(zip('+-0123456789', '⁺⁻⁰¹²³⁴⁵⁶⁷⁸⁹'))
SUPT = {ord(k): v for k, v in SUP.items()}
NINST = 4
KINDS = ('digs', 'sdigs', 'spaces', 'flt', 'int')
NSPACES = (1, 2, 5, 3)
METHODS = set('strip lstrip rstrip startswith endswith split rsplit partition rpartition lower upper replace find rfind '
              'index rindex count isdigit isnumeric isdecimal isalpha isalnum isspace casefold removeprefix removesuffix '
              'splitlines translate encode expandtabs title'.split())


def digs(E, name, value=None, length=None, minlen=1):
    """A run of digits (value and length are fresh unless given)."""
    if length is None:
        length = E.fresh(name + '_len', z3.IntSort())
        E.fact(length >= minlen)
    if value is None:
        value = E.fresh(name, z3.IntSort())
        E.fact(value >= 0)
        if E.scale is not None:
            E.fact(z3.ToReal(value) < E.scale.pow10(length))
    return Tok('digs', name, SInt(value), SInt(length), minlen)


def native_ok(s):
    return all(isinstance(p, str) or p.kind in KINDS for p in s.parts)


class Inst(object):
    """One instance of the texts of an operation."""

    def __init__(self, toks, n, chars):
        self.n = n
        self.chars = set()
        self.text, self.back_ = {}, []
        k = 0
        for t in toks:
            if t.kind == 'spaces':
                self.text[id(t)] = ' ' * NSPACES[n]
                continue
            c = chars[(k + n) % len(chars)]
            self.chars.update((c, c.translate(SUPT)))
            k += 1
            if t.kind == 'flt':
                s = ((c + '.' + c, c * 2 + '.' + c * 3, c * 5 + '.' + c, '0.' + c * 7) if t.data[1] == 'f' else
                     (c + 'e+' + c * 2, c + '.' + c + 'e-' + c * 2, c + '.' + c * 5 + 'e+' + c * 3, c + '.' + c * 7 + 'e-' + c * 2))[n]
                m = t
            else:
                m = t.data[0] if t.kind == 'sdigs' else t
                lo = m.data[3] if m.kind == 'digs' else 1
                s = c * max(lo, (1, 2, 5, 2)[n])
                if n == 3 and m.kind == 'digs':
                    s = '0' + s[1:]
            self.text[id(t)] = s if t.kind != 'sdigs' else s.translate(SUPT)
            self.back_.append((s, m))
            if m.kind in ('digs', 'int'):
                self.back_.append((s.translate(SUPT), Tok('sdigs', m)))
        self.back_.sort(key=lambda x: -len(x[0]))
        self.spaces = any(t.kind == 'spaces' for t in toks)

    def inst(self, x):
        if isinstance(x, SStr):
            return ''.join(p if isinstance(p, str) else self.text[id(p)] for p in x.parts)
        if isinstance(x, tuple):
            return tuple(map(self.inst, x))
        return x

    def back(self, t):
        out, i = [], 0
        while i < len(t):
            for s, m in self.back_:
                if t.startswith(s, i):
                    out.append(m)
                    i += len(s)
                    break
            else:
                if self.spaces and t[i] == ' ':
                    j = i
                    while j < len(t) and t[j] == ' ':
                        j += 1
                    out.append(SPACES if j - i == NSPACES[self.n] else t[i:j])
                    i = j
                    continue
                if t[i] in self.chars:
                    raise Unsupported('a string operation splits a number')
                out.append(t[i])
                i += 1
        return simp(SStr(*out))


SPACES = Tok('spaces')


def tokens(xs, out):
    for x in xs:
        if isinstance(x, SStr):
            for p in x.parts:
                if not isinstance(p, str) and not any(p is q for q in out):
                    if p.kind not in KINDS:
                        raise Unsupported('string operation on %r' % (x,))
                    out.append(p)
        elif isinstance(x, tuple):
            tokens(x, out)
    return out


def literals(xs):
    for x in xs:
        if isinstance(x, str):
            yield x
        elif isinstance(x, (tuple, list, set, frozenset)):
            for y in literals(x):
                yield y


def instances(E, args):
    toks = tokens(args, [])
    # the superscript and the ordinary form of a run are the same run
    lits = set(c for l in literals(args) for c in l)
    for x in args:
        if isinstance(x, SStr):
            lits.update(c for p in x.parts if isinstance(p, str) for c in p)
    chars = [c for c in '23456789' if c not in lits and SUP[c] not in lits]
    if len([t for t in toks if t.kind != 'spaces']) > len(chars):
        raise Unsupported('too many numbers in a text')
    if any(t.kind in ('digs', 'sdigs') for t in toks):
        for l in literals(args):
            l = l.replace('0-9', '').replace('10', '')
            if re.search('[0-9]', l):
                raise Unsupported('a string operation that looks for digits')
    E.assumptions['string operations implemented in C (str methods, re) treat all runs of digits alike (executed on runs '
                  'of 4 lengths and on different digits, with the same result required)'] = 1
    return [Inst(toks, n, chars) for n in range(NINST)]


def lift(insts, res):
    """The common result of all the instances."""
    r0 = res[0]
    if isinstance(r0, str):
        if not all(isinstance(r, str) for r in res):
            raise Unsupported('the result depends on the digits: %r' % (res[:4],))
        outs = [i.back(r) for i, r in zip(insts, res)]
        ks = {o if isinstance(o, str) else o.key() for o in outs}
        if len(ks) != 1 or len({isinstance(o, str) for o in outs}) != 1:
            raise Unsupported('the result depends on the digits: %r' % (res[:4],))
        return outs[0]
    if isinstance(r0, (tuple, list)):
        if len({(type(r), len(r)) for r in res}) != 1:
            raise Unsupported('the result depends on the digits: %r' % (res[:4],))
        return type(r0)(lift(insts, [r[k] for r in res]) for k in range(len(r0)))
    if isinstance(r0, dict):
        if len({tuple(r) for r in res}) != 1:
            raise Unsupported('the result depends on the digits: %r' % (res[:4],))
        return {k: lift(insts, [r[k] for r in res]) for k in r0}
    if isinstance(r0, re.Match):
        if not all(isinstance(r, re.Match) for r in res):
            raise Unsupported('the result depends on the digits: %r' % (res[:4],))
        return SMatch(insts, res)
    if r0 is None or isinstance(r0, (bool, int)):
        if not all(type(r) is type(r0) and r == r0 for r in res):
            raise Unsupported('the result depends on the digits: %r' % (res[:4],))
        return r0
    raise Unsupported('result %r of a string operation' % (type(r0),))


def native(E, fn, *args, **kw):
    """fn(*args) on symbolic texts."""
    insts = instances(E, list(args) + list(kw.values()))
    res, exc = [], []
    for i in insts:
        try:
            res.append(fn(*map(i.inst, args), **{k: i.inst(v) for k, v in kw.items()}))
        except Exception as e:
            exc.append(e)
    if exc:
        if len(exc) != len(insts) or len({type(e) for e in exc}) != 1:
            raise Unsupported('an exception depends on the digits')
        raise exc[0]
    return lift(insts, res)


class SMatch(Sym):
    """Match object over a symbolic text."""
    __slots__ = ('insts', 'ms')
    pytype = re.Match

    def __init__(self, insts, ms):
        self.insts, self.ms = insts, ms

    def sym_truth(self, E):
        return z3.BoolVal(True)

    def sym_getitem(self, E, k):
        return lift(self.insts, [m[k] for m in self.ms])


def smatch_call(E, me, name, args, kwargs):
    if name not in ('groupdict', 'groups', 'group', 'start', 'end', 'span', 'expand'):
        raise Unsupported('match.%s' % name)
    return lift(me.insts, [getattr(m, name)(*args, **kwargs) for m in me.ms])


def pattern_method(E, pat, name, args, kwargs):
    if name not in ('match', 'fullmatch', 'search', 'split', 'sub', 'findall'):
        raise Unsupported('re.Pattern.%s' % name)
    if any(isinstance(x, Sym) and not isinstance(x, SStr) for x in args):
        raise Unsupported('re.Pattern.%s' % name)
    return native(E, lambda p, *a, **k: getattr(pat, name)(*a, **k), pat.pattern, *args, **kwargs)


# ------------------------------------------------------------------ numbers

def strip_spaces(s):
    ps = list(s.parts)
    ps = [p for p in ps if isinstance(p, str) or p.kind != 'spaces']
    if ps and isinstance(ps[0], str):
        ps[0] = ps[0].lstrip()
    if ps and isinstance(ps[-1], str):
        ps[-1] = ps[-1].rstrip()
    return simp(SStr(*ps))


def pieces(s):
    out = []
    for p in s.parts:
        out.extend(list(p) if isinstance(p, str) else [p])
    return out


def run_of(E, ps):
    """(value, length) terms of a sequence of digits, (None, 0) if empty."""
    if not ps:
        return None, z3.IntVal(0)
    if len(ps) == 1 and not isinstance(ps[0], str):
        t = ps[0]
        if t.kind == 'int':
            return E.iterm(t.data[0]), E.scale.toklen(t)
        if t.kind != 'digs':
            raise Unsupported('number %r' % (ps,))
        return E.iterm(t.data[1]), E.iterm(t.data[2])
    if all(isinstance(p, str) for p in ps):
        return z3.IntVal(int(''.join(ps))), z3.IntVal(len(ps))
    raise Unsupported('number %r' % (ps,))


def decimal(E, ip, fp, e=None):
    """The real denoted by digits ip '.' fp with the exponent e (terms)."""
    sc = E.scale
    (i, li), (f, lf) = run_of(E, ip), run_of(E, fp)
    e = z3.IntVal(0) if e is None else e
    j = E.joins.get((id(ip[0]), id(fp[0]))) if ip and fp else None
    if j is not None:
        return sc.sc(z3.ToReal(j), e - lf)
    if f is None:
        return sc.sc(z3.ToReal(i), e)
    if i is None:
        return sc.sc(z3.ToReal(f), e - lf)
    b = z3.ToReal(i) + sc.sc(z3.ToReal(f), -lf)
    return sc.sc(b, e)


def to_float(E, s):
    native(E, lambda x: (float(x), None)[1], s)      # accepted by float() or not
    s = strip_spaces(s)
    if isinstance(s, str):
        return float(s)
    ps = pieces(s)
    neg = False
    if ps[0] in ('+', '-'):
        neg = ps.pop(0) == '-'
    ps = [p for p in ps if p != '_']
    e = None
    for n, p in enumerate(ps):
        if p in ('e', 'E'):
            ep, ps = ps[n + 1:], ps[:n]
            eneg = False
            if ep[0] in ('+', '-'):
                eneg = ep.pop(0) == '-'
            e = run_of(E, ep)[0]
            e = -e if eneg else e
            break
    if len(ps) == 1 and not isinstance(ps[0], str) and ps[0].kind == 'flt':
        x = ps[0].data[0]
        if e is not None:
            x = SFloat(E.scale.sc(E.term(x), e))
        return E.num_neg(x) if neg else x
    ip, fp = ps, []
    if '.' in ps:
        k = ps.index('.')
        ip, fp = ps[:k], ps[k + 1:]
    t = decimal(E, ip, fp, e)
    return SFloat(z3.simplify(-t) if neg else t)


def to_int(E, s):
    native(E, lambda x: (int(x), None)[1], s)
    s = strip_spaces(s)
    if isinstance(s, str):
        return int(s)
    ps = pieces(s)
    neg = False
    if ps[0] in ('+', '-'):
        neg = ps.pop(0) == '-'
    v = run_of(E, [p for p in ps if p != '_'])[0]
    return SInt(z3.simplify(-v) if neg else v)


# ------------------------------------------------------------------ hooks

def sym_compare(self, E, op, other):
    if op in ('==', '!='):
        if isinstance(other, SStr) and self == other:
            return op == '=='
        if isinstance(other, (int, float, tuple, type(None), list)):
            return op == '!='
        if isinstance(other, (str, SStr)) and native_ok(self) and (isinstance(other, str) or native_ok(other)):
            r = native(E, lambda a, b: a == b, self, other)
            return r if op == '==' else not r
        raise Unsupported('comparison of symbolic strings')
    return NotImplemented


def sym_contains(self, E, x):
    if not isinstance(x, (str, SStr)):
        raise TypeError("'in <string>' requires string as left operand")
    return native(E, lambda a, b: b in a, self, x)


def sym_getitem(self, E, k):
    if isinstance(k, (SInt,)) or isinstance(k, slice) and any(isinstance(v, Sym) for v in (k.start, k.stop, k.step)):
        raise Unsupported('symbolic index of a text')
    try:
        return native(E, lambda a: a[k], self)
    except Unsupported:
        first = k == 0 or k == slice(0, 1) or k == slice(None, 1)
        last = k == -1 or k == slice(-1, None)
        if (first or last) and self.parts:
            t = self.parts[0 if first else -1]
            if not isinstance(t, str) and t.kind in ('digs', 'sdigs', 'flt', 'int'):
                return EdgeChar(t)
        raise


class EdgeChar(Sym):
    """First or last character of a run of digits or of a number: some character of a number."""
    __slots__ = ('tok',)
    pytype = str
    POSSIBLE = set('0123456789+-.einfa') | set(SUP.values())

    def __init__(self, tok):
        self.tok = tok

    def __hash__(self):
        return id(self)

    def sym_truth(self, E):
        return z3.BoolVal(True)

    def sym_len(self, E):
        return 1

    def same(self, c):
        if isinstance(c, str) and (len(c) != 1 or c not in self.POSSIBLE):
            return False
        if isinstance(c, (int, float, tuple, type(None), list)):
            return False
        raise Unsupported('comparison with a character of a number')

    def sym_compare(self, E, op, other):
        if op == '==':
            return self.same(other)
        if op == '!=':
            return not self.same(other)
        return NotImplemented

    def sym_binop(self, E, op, other, refl):
        raise Unsupported('operation on a character of a number')


def sym_iter(self, E):
    if not all(isinstance(p, str) for p in self.parts):
        raise Unsupported('iteration over a symbolic text')
    return iter(''.join(self.parts))


SStr.sym_compare = sym_compare
SStr.sym_contains = sym_contains
SStr.sym_getitem = sym_getitem
SStr.sym_iter = sym_iter


def str_hook(E, me, name, args, kwargs):
    if name in METHODS and native_ok(me):
        if any(isinstance(a, Sym) and not isinstance(a, SStr) for a in args):
            raise Unsupported('str.%s' % name)
        return native(E, lambda s, *a, **k: getattr(s, name)(*a, **k), me, *args, **kwargs)
    return NotImplemented
