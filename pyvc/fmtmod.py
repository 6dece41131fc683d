# -*- coding: utf-8 -*-
"""Decimal scaling, rounding and formatted numerals: the arithmetic of number formatting over the reals.

A real known to be  b * 10**e  (b real, e integer) is recorded as such, so that  round(), first digits, mantissas
and formatted digits become integer-valued functions of (b, e):
  sc(b, e) = b * 10**e;  rhe(b, e) = the integer nearest to sc(b, e) (half to even);  fd(b) = the exponent of the first
  digit of b (0 for 0).
Their laws (monotony, bounds, values at integers) are instantiated between the terms met on the path."""
import fractions, math, re
import z3
from . import engine as EN
from .engine import SFloat, SInt, SBool, SNum, Sym, Unsupported, finite_const, is_num, rv
from .strings import SStr, Tok, simp

Fr = fractions.Fraction
I = z3.IntSort()
R = z3.RealSort()
P10 = z3.Function('pow10i', I, R)
PI10 = z3.Function('pow10int', I, I)
SC = z3.Function('scaled', R, I, R)
RHE = z3.Function('rhe', R, I, I)
FD = z3.Function('first_digit', R, I)
LEN = z3.Function('numeral_len', I, I, z3.BoolSort(), I)   # digits, decimals, comma
LENE = z3.Function('signed_exp_len', I, I)
LENI = z3.Function('int_len', I, I)


def frac(t):
    return Fr(t.numerator_as_long(), t.denominator_as_long())


def q(f):
    f = Fr(f)
    return z3.Q(f.numerator, f.denominator)


def lead(x):
    x = abs(Fr(x))
    if x == 0:
        return 0
    n = len(str(x.numerator)) - len(str(x.denominator))
    for k in (n + 1, n, n - 1):
        if x >= Fr(10) ** k:
            return k


def split_const(e):
    """(e', c) with e = e' + c, e' without constant."""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return None, e.as_long()
    if z3.is_add(e):
        rest, c = [], 0
        for a in e.children():
            if z3.is_int_value(a):
                c += a.as_long()
            else:
                rest.append(a)
        if c:
            return z3.simplify(z3.Sum(*rest)), c
    return e, 0


class Scale(object):

    def __init__(self, E):
        self.E = E
        self.recs = {}
        self.keep = []
        self.scs, self.rhes, self.fds, self.ps = [], [], [], []
        self.lens = []
        self.seen = {}
        E.scale = self
        E.assumptions['digits, rounding and first digits are those of the real numbers (floating-point rounding of '
                      'the mantissas and of log10 is not modelled)'] = 1

    def facts(self, key, make):
        """Instances of axioms, built once per unit."""
        cache = self.E.__dict__.setdefault('fmtcache', {})
        key = (key[0],) + tuple(k.get_id() for k in key[1:])
        f = cache.get(key)
        if f is None:
            fs = make()
            f = cache[key] = (z3.And(*fs) if len(fs) > 1 else fs[0], key)
        self.E.fact(f[0])

    # -------------------------------------------------------------- normal forms
    def once(self, t):
        if t.get_id() in self.seen:
            return False
        self.seen[t.get_id()] = t
        return True

    def norm(self, b, e):
        """(b, e) with the powers of ten of a constant coefficient moved to the exponent."""
        b, e = z3.simplify(b), z3.simplify(e)
        c, rest = Fr(1), b
        if z3.is_rational_value(b):
            c, rest = frac(b), None
        elif z3.is_mul(b) and z3.is_rational_value(b.arg(0)):
            c = frac(b.arg(0))
            rest = z3.simplify(z3.Product(*b.children()[1:])) if b.num_args() > 2 else b.arg(1)
        if c == 0:
            return z3.RealVal(0), z3.IntVal(0)
        k = 0
        while c.denominator == 1 and c.numerator % 10 == 0:
            c, k = c / 10, k + 1
        while c.denominator % 10 == 0 or (c * 10).denominator == 1 and c.denominator != 1:
            c, k = c * 10, k - 1
        if rest is not None and z3.is_app(rest) and rest.get_id() in self.recs:
            b2, e2 = self.recs[rest.get_id()]
            if c == 1:
                return self.norm(b2, e2 + e + k)
            return z3.simplify(q(c) * b2), z3.simplify(e2 + e + k)
        nb = q(c) if rest is None else (rest if c == 1 else z3.simplify(q(c) * rest))
        return nb, z3.simplify(e + k)

    def of(self, t):
        """(b, e) of a real term."""
        t = z3.simplify(t)
        if t.get_id() in self.recs:
            return self.recs[t.get_id()]
        return self.norm(t, z3.IntVal(0))

    def pow10(self, e):
        e2, c = split_const(e)
        if e2 is None:
            if abs(c) > 700:
                raise Unsupported('huge power of ten')
            return q(Fr(10) ** c)
        t = P10(e2)
        E = self.E
        if self.once(t):
            def one():
                fs = [t > 0, z3.Implies(e2 >= 0, t == z3.ToReal(PI10(e2)))]
                for k in range(-4, 5):
                    v = q(Fr(10) ** k)
                    fs += [z3.Implies(e2 >= k, t >= v), z3.Implies(e2 <= k, t <= v)]
                return fs
            self.facts(('p', t), one)
            for (e3, t3) in self.ps:
                def pair():
                    fs = []
                    for k in range(-3, 4):
                        v = q(Fr(10) ** k)
                        fs += [z3.Implies(e2 >= e3 + k, t >= v * t3), z3.Implies(e2 <= e3 + k, t <= v * t3)]
                    return fs
                self.facts(('pp', t, t3), pair)
            self.ps.append((e2, t))
        return q(Fr(10) ** c) * t if c else t

    def pint(self, e):
        """10**e as an integer term (e >= 0 on the path)."""
        e2, c = split_const(e)
        if e2 is None:
            return z3.IntVal(10 ** c)
        if c == 0:
            self.pow10(e2)
            return PI10(e2)
        return z3.ToInt(self.pow10(e))

    def sc(self, b, e):
        """b * 10**e as a real term (registered)."""
        b, e = self.norm(b, e)
        e2, c = split_const(e)
        E = self.E
        if z3.is_rational_value(b):
            t = b * self.pow10(e)
        elif e2 is None:
            t = b * q(Fr(10) ** c)
        else:
            u = SC(b, e2)
            if self.once(u):
                self.facts(('sc', u), lambda: [(b > 0) == (u > 0), (b < 0) == (u < 0), z3.Implies(e2 == 0, u == b)] + [
                    z3.Implies(e2 == k, u == b * q(Fr(10) ** k)) for k in (-3, -2, -1, 1, 2, 3)])
                for (b3, e3, u3) in self.scs:
                    if b3.eq(b):
                        self.facts(('ss', u, u3), lambda: [
                            z3.Implies(z3.And(e2 >= e3, b > 0), u >= u3), z3.Implies(z3.And(e2 <= e3, b > 0), u <= u3),
                            z3.Implies(z3.And(e2 >= e3 + 1, b > 0), u >= 10 * u3),
                            z3.Implies(z3.And(e3 >= e2 + 1, b > 0), u3 >= 10 * u)] + [
                            z3.Implies(e2 == e3 + k, u == u3 * q(Fr(10) ** k)) for k in (-2, -1, 1, 2)])
                    else:
                        self.facts(('ss', u, u3), lambda: [
                            z3.Implies(e2 == e3, z3.And((b <= b3) == (u <= u3), (b == b3) == (u == u3)))])
                self.scs.append((b, e2, u))
                self.recs[u.get_id()] = (b, e2)
                for (b3, f3) in self.fds:
                    if b3.eq(b):
                        self.fd_sc(b, f3, e2, u)
            t = q(Fr(10) ** c) * u if c else u
        t = z3.simplify(t)
        if not z3.is_rational_value(t) and t.get_id() not in self.recs and not (e2 is None and c == 0):
            self.recs[t.get_id()] = (b, e)
            self.keep.append(t)
        return t

    def fd_sc(self, b, f, e, u):
        E = self.E
        lo, hi = self.pow10(f + e), self.pow10(f + e + 1)
        self.facts(('fs', f, u), lambda: [z3.Implies(b > 0, z3.And(lo <= u, u < hi)),
                                          z3.Implies(b < 0, z3.And(lo <= -u, -u < hi))])

    def rhe(self, b, e):
        """The integer nearest to b * 10**e."""
        b, e = self.norm(b, e)
        E = self.E
        if z3.is_rational_value(b) and z3.is_int_value(e):
            return z3.IntVal(round(frac(b) * Fr(10) ** e.as_long()))
        if z3.is_int_value(e) and e.as_long() == 0 and z3.is_app(b) and b.decl().kind() == z3.Z3_OP_TO_REAL:
            return b.arg(0)
        k = RHE(b, e)
        if self.once(k):
            s = self.sc(b, e)
            def near():
                d = s - z3.ToReal(k)
                h = z3.Q(1, 2)
                return [d <= h, d >= -h, z3.Implies(z3.Or(d == h, d == -h), k % 2 == 0)]
            self.facts(('r', k), near)
            for (k3, s3) in self.rhes:
                self.facts(('rr', k, k3), lambda: [z3.Implies(s <= s3, k <= k3), z3.Implies(s3 <= s, k3 <= k)])
            self.rhes.append((k, s))
        return k

    def fd(self, t):
        """Exponent of the first digit of the real t (0 for 0)."""
        b, e = self.of(t)
        E = self.E
        if z3.is_rational_value(b):
            if frac(b) == 0:
                return z3.IntVal(0)
            return z3.simplify(e + lead(frac(b)))
        f = FD(b)
        if self.once(f):
            lo, hi = self.pow10(f), self.pow10(f + 1)
            self.facts(('f', f), lambda: [z3.Implies(b == 0, f == 0), z3.Implies(b > 0, z3.And(lo <= b, b < hi)),
                                          z3.Implies(b < 0, z3.And(lo <= -b, -b < hi))])
            for (b3, f3) in self.fds:
                self.facts(('ff', f, f3), lambda: [z3.Implies(z3.And(0 < b, b <= b3), f <= f3),
                                                   z3.Implies(z3.And(0 < b3, b3 <= b), f3 <= f)])
            self.fds.append((b, f))
            for (b3, e3, u3) in list(self.scs):
                if b3.eq(b):
                    self.fd_sc(b, f, e3, u3)
        if z3.is_int_value(e) and e.as_long() == 0:
            return f
        if E.decide(b == 0):
            return z3.IntVal(0)
        return z3.simplify(f + e)

    # -------------------------------------------------------------- interpreted operators
    def binop(self, op, a, b):
        E = self.E
        if op == '**':
            if isinstance(a, (int, float)) and not isinstance(a, bool) and a == 10 and E.is_int_like(b) and isinstance(b, Sym):
                if isinstance(a, float):
                    t = self.sc(z3.RealVal(1), E.iterm(b))
                    return SFloat(t)
                if E.decide(E.iterm(b) >= 0):
                    return SInt(self.pint(E.iterm(b)))
                return SFloat(self.sc(z3.RealVal(1), E.iterm(b)))
            return NotImplemented
        if op not in '*/' or len(op) != 1:
            return NotImplemented
        if E.is_int_like(a) and E.is_int_like(b):
            return NotImplemented
        for x in (a, b):
            if isinstance(x, float) and not finite_const(x):
                return NotImplemented
        (ba, ea), (bb, eb) = self.of(E.term(a)), self.of(E.term(b))
        zero = z3.IntVal(0)
        if ea.eq(zero) and eb.eq(zero) and not z3.is_rational_value(ba) and not z3.is_rational_value(bb):
            return NotImplemented
        if op == '*':
            if not (z3.is_rational_value(ba) or z3.is_rational_value(bb)):
                return NotImplemented
            return SFloat(self.sc(z3.simplify(ba * bb), ea + eb))
        if not z3.is_rational_value(bb):
            return NotImplemented
        if frac(bb) == 0:
            return NotImplemented
        return SFloat(self.sc(z3.simplify(ba / bb), ea - eb))

    def round(self, x, n):
        E = self.E
        b, e = self.of(E.term(x))
        if n is None:
            return SInt(self.rhe(b, e))
        n = E.iterm(n)
        k = self.rhe(b, e + n)
        return SFloat(self.sc(z3.ToReal(k), -n))

    def trunc(self, x):
        return None

    # -------------------------------------------------------------- numerals
    def digits(self, v, prec):
        """The signed integer of all the displayed digits of v with prec decimals."""
        b, e = self.of(self.E.term(v))
        return self.rhe(b, e + prec)

    def toklen(self, tok):
        """Length of a token as an Int term, or None."""
        E = self.E
        if tok.kind == 'int':
            return self.lenfact(LENI(E.iterm(tok.data[0])))
        if tok.kind == 'digs':
            return E.iterm(tok.data[2])
        if tok.kind == 'sdigs':
            return self.toklen(tok.data[0])
        if tok.kind == 'trans':
            return self.toklen(tok.data[0])
        n = as_numeral(E, tok)
        if n is None:
            return None
        if n.kind == 'exp':
            return self.lenfact(LENE(n.value))
        if n.width is not None or n.sign:
            return None
        return self.lenfact(LEN(n.digits, n.prec, z3.BoolVal(n.comma)))

    def lenfact(self, t):
        if self.once(t):
            self.E.fact(t >= 1)
        return t


class Numeral(object):
    """A numeral: the number value*10**-prec with digits = round(value...) and layout flags."""
    __slots__ = ('kind', 'value', 'digits', 'prec', 'sign', 'zero', 'width', 'comma', 'upper', 'x', 'spec', 'alts')


PUA = 0xE000


def flatten(E, s):
    """Text with private-use characters for the tokens, and the tokens."""
    if isinstance(s, str):
        return s, []
    toks, out = [], []
    for p in s.parts:
        if isinstance(p, str):
            out.append(p)
        else:
            out.append(chr(PUA + len(toks)))
            toks.append(p)
    return ''.join(out), toks


SPEC = re.compile('([-+ ]?)(0?)([0-9]*|[\ue000-\uf8ff])(,?)(?:\\.([0-9]+|[\ue000-\uf8ff]))?([eEfFgGd]?)\\Z')


def int_of(E, txt, toks):
    if not txt:
        return None
    if ord(txt[0]) >= PUA:
        t = toks[ord(txt[0]) - PUA]
        if t.kind != 'int':
            raise Unsupported('numeral specification')
        return E.iterm(t.data[0])
    return z3.IntVal(int(txt))


def as_numeral(E, tok):
    """The Numeral of a fmt/pct/int/repr token, or None."""
    n = Numeral()
    n.sign, n.zero, n.width, n.comma, n.upper = '', False, None, False, False
    n.x = n.spec = n.alts = None
    if tok.kind == 'num':
        return tok.data[0]
    if tok.kind == 'int':
        n.kind, n.value = 'int', E.iterm(tok.data[0])
        n.digits, n.prec = n.value, z3.IntVal(0)
        return n
    if tok.kind in ('repr', 'str') and isinstance(tok.data[0], SFloat):
        n.kind, n.x, n.spec = 'g', tok.data[0], ''
        n.prec = None
        n.value = E.term(n.x)
        return n
    if tok.kind not in ('fmt', 'pct'):
        return None
    x, spec = tok.data
    txt, toks = flatten(E, spec)
    m = SPEC.match(txt)
    if not m:
        return None
    sign, zero, width, comma, prec, typ = m.groups()
    if tok.kind == 'pct':
        if typ == 'd' and txt == '+03d':
            n.kind, n.value = 'exp', E.iterm(x)
            return n
        if sign or zero or width or comma:
            return None
    if typ == 'd':
        return None
    n.sign, n.zero, n.comma = sign if sign != '-' else '', bool(zero), bool(comma)
    n.width = int_of(E, width, toks)
    n.x = x
    n.upper = typ.isupper()
    n.prec = int_of(E, prec, toks)
    n.value = E.term(x) if isinstance(x, SNum) or finite_const(x) else None
    if typ in ('f', 'F'):
        n.kind = 'f'
        if n.prec is None:
            return None
        if n.value is not None:
            n.digits = E.scale.digits(x, n.prec)
    else:
        n.kind = 'g'
        n.spec = typ
    return n


def plain(E, s):
    """Non-finite values without padding as plain text."""
    if not isinstance(s, SStr):
        return s
    out = []
    for p in s.parts:
        if not isinstance(p, str) and p.kind in ('fmt', 'num', 'pct'):
            n = as_numeral(E, p)
            if n is not None and n.kind != 'exp' and n.value is None and (n.width is None or z3.is_int_value(z3.simplify(n.width))):
                w = '' if n.width is None else '0%d' % z3.simplify(n.width).as_long()
                p = format(n.x, n.sign + w + ('F' if n.upper else 'f'))
            elif n is not None and n.kind == 'f' and n.width is None and not n.sign and z3.is_rational_value(z3.simplify(n.value)) \
                    and frac(z3.simplify(n.value)) == 0 and z3.is_int_value(z3.simplify(n.prec)):
                p = '%.*f' % (z3.simplify(n.prec).as_long(), 0.)
        out.append(p)
    return simp(SStr(*out))


def match_text(E, label, got, want):
    """Obligations: the symbolic text got is the text want (tokens compared by meaning)."""
    got, want = plain(E, got), plain(E, want)
    g = got.parts if isinstance(got, SStr) else ((got,) if got else ())
    w = want.parts if isinstance(want, SStr) else ((want,) if want else ())
    shape = lambda ps: [p if isinstance(p, str) else p.kind in ('align', 'trans') and p.kind or 'num' for p in ps]
    if not E.ensure(label + ': text around the numerals', shape(g) == shape(w), lambda: 'got %r, expected %r' % (g, w)):
        return False
    ok = True
    for i, (a, b) in enumerate(zip(g, w)):
        if isinstance(a, str):
            continue
        ok = match_tok(E, label, a, b) and ok
    return ok


ALIGN = re.compile('(.??)([<>=^]?)(0?)([0-9]+|[\ue000-\uf8ff])\\Z', re.S)


def match_tok(E, label, a, b):
    if a.kind == 'align':
        ok = match_text(E, label, a.data[0], b.data[0])
        ta, ka = flatten(E, a.data[1])
        tb, kb = flatten(E, b.data[1])
        ma, mb = ALIGN.match(ta), ALIGN.match(tb)
        if ma is None or mb is None:
            raise Unsupported('alignment %r' % (a,))
        norm = lambda m: (m.group(1) or ' ', m.group(2) or '<', m.group(3))
        ok = E.ensure(label + ': fill and alignment', norm(ma) == norm(mb), lambda: 'got %r, expected %r' % (a, b)) and ok
        return E.ensure(label + ': width', int_of(E, ma.group(4), ka) == int_of(E, mb.group(4), kb)) and ok
    if a.kind == 'trans':
        ok = E.ensure(label + ': superscript characters', a.data[1] == b.data[1], lambda: '%r %r' % (a, b))
        return match_tok(E, label, a.data[0], b.data[0]) and ok
    x, y = as_numeral(E, a), as_numeral(E, b)
    if x is None or y is None:
        raise Unsupported('numeral %r' % (a if x is None else b,))
    d = lambda: 'got %r, expected %r' % (a, b)
    if x.kind == 'exp' or y.kind == 'exp':
        return E.ensure(label + ': exponent', z3.BoolVal(x.kind == y.kind) if x.kind != y.kind else x.value == y.value, d)
    ok = E.ensure(label + ': sign option', x.sign == y.sign, d)
    w = x.zero == y.zero and (x.width is None) == (y.width is None)
    if w and x.width is not None:
        w = x.width == y.width
        if not x.zero:
            raise Unsupported('width of a numeral')
    ok = E.ensure(label + ': zero padding', w, d) and ok
    ok = E.ensure(label + ': thousands separator', x.comma == y.comma, d) and ok
    # non-finite
    nfx, nfy = x.value is None, y.value is None
    if nfx or nfy:
        same = nfx and nfy and (x.x == y.x or (x.x != x.x and y.x != y.x))
        ok = E.ensure(label + ': non-finite value', same, d) and ok
        return E.ensure(label + ': letter case', x.upper == y.upper, d) and ok
    if x.kind == 'g' or y.kind == 'g':
        if not E.ensure(label + ': float format', x.kind == y.kind and x.spec == y.spec and (x.prec is None) == (y.prec is None), d):
            return False
        if x.prec is not None:
            ok = E.ensure(label + ': precision', x.prec == y.prec, d) and ok
        vs = y.alts if getattr(y, 'alts', None) else [y.value]
        return E.ensure(label + ': value', z3.Or(*[E.scale.value_eq(x.value, v) for v in vs]), d) and ok
    if {x.kind, y.kind} == {'int', 'f'}:
        ok = E.ensure(label + ': decimals', x.prec == y.prec, d) and ok
        return E.ensure(label + ': digits', x.digits == y.digits, d) and ok
    ok = E.ensure(label + ': decimals', x.prec == y.prec, d) and ok
    ok = E.ensure(label + ': digits', x.digits == y.digits, d) and ok
    return ok


def value_eq(self, a, b):
    """Equality of reals, through their (b, e) forms when both have the same base."""
    (ba, ea), (bb, eb) = self.of(a), self.of(b)
    if ba.eq(bb):
        return z3.Or(ea == eb, ba == 0)
    return self.sc(ba, ea) == self.sc(bb, eb)


Scale.value_eq = value_eq
