# -*- coding: utf-8 -*-
"""Specification of the text of format(x, spec), over the reals (units of C14, C15, C16)."""
import math, z3
from ..engine import SFloat, SInt, SBool, SNum, Sym, finite_const, Unsupported
from ..strings import SStr, Tok, simp
from .. import fmtmod, coll
from ..fmtmod import Numeral
from .common import *

SUP = tuple('⁺⁻⁰¹²³⁴⁵⁶⁷⁸⁹')


def fin(x):
    return isinstance(x, Sym) or finite_const(x)


def zero(x):
    return not isinstance(x, Sym) and x == 0


# -------------------------------------------------------------------- specifications of the helper functions

def fd_of(E, t):
    return E.scale.fd(t)


def limit_of(E, t, n):
    """Position of the last of the n significant digits of t (rounding to ten included)."""
    sc = E.scale
    b, e = sc.of(t)
    l0 = z3.simplify(fd_of(E, t) - n + 1)
    k0 = sc.rhe(b, e - l0)
    if E.decide(z3.If(k0 >= 0, k0, -k0) >= sc.pint(n)):
        return z3.simplify(l0 + 1)
    return l0


def pdg_of(E, t):
    """(digits, effective standard deviation term) by the rule of the Particle Data Group."""
    sc = E.scale
    b, e = sc.of(t)
    f = fd_of(E, t)
    d3 = z3.ToInt(sc.sc(b, e + 2 - f))
    if E.decide(d3 <= 354):
        return 2, t
    if E.decide(d3 <= 949):
        return 1, t
    return 2, sc.sc(z3.RealVal(1), f + 1)


def contracts(E):
    def c_fd(E, args, kw):
        v, = args
        if not fin(v):
            raise Unsupported('first_digit of a non-finite number')
        return SInt(fd_of(E, E.term(v)))

    def c_lim(E, args, kw):
        v, n = args
        if not fin(v):
            raise Unsupported('signif_dgt_to_limit of a non-finite number')
        return SInt(limit_of(E, E.term(v), E.iterm(n)))

    def c_pdg(E, args, kw):
        k, t = pdg_of(E, E.term(args[0]))
        return (k, SFloat(t))
    E.contracts[core.first_digit] = c_fd
    E.contracts[core.signif_dgt_to_limit] = c_lim
    E.contracts[core.PDG_precision] = c_pdg
    E.assumptions['first_digit, signif_dgt_to_limit and PDG_precision are used through their contracts '
                  '(proved by units of C14)'] = 1


# -------------------------------------------------------------------- numerals of the expected text

def fixed(E, x, d, sign='', zeropad=None, comma=False, upper=False):
    n = Numeral()
    n.kind, n.sign, n.zero, n.width, n.comma, n.upper = 'f', sign if sign != '-' else '', zeropad is not None, zeropad, bool(comma), upper
    n.spec = n.alts = None
    n.x = x
    n.value = E.term(x) if fin(x) else None
    n.prec = d
    n.digits = E.scale.digits(x, d) if fin(x) else None
    return SStr(Tok('num', n))


def general(E, x, alts, prec, typ, sign='', zeropad=None, comma=False):
    n = Numeral()
    n.kind, n.sign, n.zero, n.width, n.comma = 'g', sign if sign != '-' else '', zeropad is not None, zeropad, bool(comma)
    n.upper = typ.isupper()
    n.spec = typ
    n.prec = prec
    n.x = x
    n.value = E.term(x) if fin(x) else None
    n.alts = [E.term(a) for a in alts]
    return SStr(Tok('num', n))


def integer(t):
    return SStr(Tok('int', SInt(t)))


def imax(E, t):
    return t if E.decide(t >= 0) else z3.IntVal(0)


def slen(E, s):
    if isinstance(s, str):
        return z3.IntVal(len(s))
    r = s.sym_len(E)
    return r.t


class Digits(object):
    """The numbers to display."""


def digits(E, nom, std, prec, u, typ):
    """Digits of format(x, core specification), or None when the specification is refused."""
    sc = E.scale
    D = Digits()
    if typ == '%':
        nom = SFloat(z3.simplify(100 * nom.t)) if isinstance(nom, Sym) else nom * 100
        std = SFloat(z3.simplify(100 * std.t)) if isinstance(std, Sym) else std * 100
    ftype = typ in ('f', 'F', '%')
    nfin, sfin = fin(nom), fin(std)
    D.nom, D.std = nom, std
    refs = []
    if nfin:
        t = E.term(nom)
        refs.append(t if E.decide(t >= 0) else z3.simplify(-t))
    if sfin:
        refs.append(E.term(std))
    ref = None
    if refs:
        ref = refs[0]
        if len(refs) == 2 and E.decide(refs[1] > refs[0]):
            ref = refs[1]
    D.control = sfin and not zero(std) and (u or (prec is None and nfin))
    D.eff = E.term(std) if sfin else None
    D.k = None
    if D.control:
        if prec is not None:
            k = prec
            if E.decide(prec == 0):
                return None
        else:
            k, D.eff = pdg_of(E, E.term(std))
            k = z3.IntVal(k)
        D.k = k
        L = limit_of(E, D.eff, k)
    else:
        p = prec if prec is not None else z3.IntVal(12 if typ == '' else 6)
        if ftype:
            L = z3.simplify(-p)
        elif ref is None:
            L = None
        else:
            if typ in ('e', 'E'):
                k = p + 1
            else:
                k = z3.IntVal(1) if E.decide(p == 0) else p
            L = limit_of(E, ref, k)
    ce = None
    if not ftype and ref is not None:
        b, e = sc.of(ref)
        K = sc.rhe(b, e - L)
        ce = z3.IntVal(0) if E.decide(K == 0) else z3.simplify(fd_of(E, z3.ToReal(K)) + L)
        if typ not in ('e', 'E') and E.decide(z3.And(-4 <= ce, ce < ce - L + 1)):
            ce = None
    D.L, D.ce = L, ce
    D.d = None
    if L is not None:
        d = z3.simplify((ce if ce is not None else 0) - L)
        lo = 1 if typ == '' and zero(std) else 0
        D.d = d if E.decide(d >= lo) else z3.IntVal(lo)
    else:
        D.d = z3.IntVal(0)
    return D


def scaled(E, t, ce):
    """The term t / 10**ce."""
    if ce is None:
        return SFloat(t)
    b, e = E.scale.of(t)
    return SFloat(E.scale.sc(b, e - ce))


def layout(E, D, typ, prec, sign='', zeropad=False, width=None, comma='', fill='', align='', opts=''):
    """Expected text."""
    sc = E.scale
    P, S, L, p = ('P' in opts), ('S' in opts), ('L' in opts), ('p' in opts)
    nfin, sfin = fin(D.nom), fin(D.std)
    upper = typ in ('E', 'F', 'G')
    gtype = typ in ('', 'g', 'G')
    ce = D.ce
    if ce is None:
        exp = ''
    elif P:
        exp = SStr('×10', Tok('trans', Tok('int', SInt(ce)), SUP))
    elif L:
        exp = SStr(' \\times 10^{', Tok('int', SInt(ce)), '}')
    else:
        exp = SStr('E' if upper else 'e', Tok('pct', SInt(ce), '+03d'))
    pct = '' if typ != '%' else (' \\%' if L else '%')
    left, right = ('\\left(', '\\right)') if L and not P else ('(', ')')
    pm = '±' if P else (' \\pm ' if L else '+/-')

    def latex(txt, v):
        if not L or fin(v):
            return txt
        if v != v:
            return SStr('\\mathrm{', txt, '}')
        return '-\\infty' if v < 0 else '\\infty'

    special = zero(D.std) or not sfin
    usuf = ('g' if prec is not None and typ == '' else typ)

    def alts(t):
        a = [scaled(E, t, ce)]
        if D.L is not None and prec is not None:
            b, e = sc.of(t)
            k = sc.rhe(b, e - D.L)
            a.append(scaled(E, sc.sc(z3.ToReal(k), D.L), ce))
        return a

    def nom_txt(pad):
        if not nfin:
            return fixed(E, D.nom, D.d, sign, pad, comma, upper)
        t = E.term(D.nom)
        if special and gtype:
            v = scaled(E, t, ce)
            return general(E, v, alts(t), prec, usuf, sign, pad, comma)
        return fixed(E, scaled(E, t, ce), D.d, sign, pad, comma, upper)

    def std_txt(pad, comma=comma):
        if not sfin:
            return fixed(E, D.std, D.d, '', pad, comma, upper)
        if zero(D.std):
            return '0' if pad is None else fixed(E, 0., z3.IntVal(0), '', pad, comma, upper)
        if not nfin and gtype and not S:
            return general(E, scaled(E, D.eff, ce), alts(D.eff), prec, usuf, '', pad, comma)
        return fixed(E, scaled(E, D.eff, ce), D.d, '', pad, comma, upper)

    def aligned(s):
        if width is None:
            return s
        return SStr(Tok('align', s if isinstance(s, SStr) else SStr(s), SStr(fill or ' ', align or '>', Tok('int', SInt(width)))))

    if S:
        if zero(D.std):
            ut = '0'
        elif not sfin:
            ut = latex(std_txt(None, ''), D.std)
        else:
            b, e = sc.of(E.term(scaled(E, D.eff, ce)))
            dig = sc.rhe(b, e + D.d)
            if E.decide(D.d > 0):
                if not nfin or E.decide(z3.ToReal(dig) >= sc.pow10(D.d)) or E.decide(dig == 0):
                    ut = std_txt(None, '')
                else:
                    ut = integer(dig)
            elif E.decide(dig == 0):
                ut = '0.'
            else:
                ut = integer(dig)
        end = simp(SStr('(', ut, ')', exp, pct))
        pad = None
        if zeropad and width is not None:
            pad = imax(E, width - slen(E, fmtmod.plain(E, end)))
        return aligned(SStr(latex(nom_txt(pad), D.nom), end))

    nexp = eexp = ''
    if width is not None:
        if nfin:
            nexp = exp
        if sfin and not zero(D.std):
            eexp = exp
    pn = pe = None
    if zeropad and width is not None:
        pn = imax(E, width - slen(E, nexp)) if nexp != '' else width
        pe = imax(E, width - slen(E, eexp)) if eexp != '' else width
    n = SStr(latex(nom_txt(pn), D.nom), nexp)
    s = SStr(latex(std_txt(pe), D.std), eexp)
    body = SStr(aligned(n), pm, aligned(s))
    if exp != '' and width is None:
        return SStr(left, body, right, exp, pct)
    if pct:
        return SStr(left, body, right, pct)
    if p:
        return SStr('(' if not (L and not P) else left, body, right)
    return body


# -------------------------------------------------------------------- harness

NOMS = ('fin', 'nan', 'inf', '-inf')
STDS = ('pos', '0', 'nan', 'inf')


def variable(E, nk, sk):
    nom = E.real('nom') if nk == 'fin' else float(nk)
    if sk == 'pos':
        std = E.real('std')
        E.assume(std.t > 0)
    else:
        std = float(sk)
    v = coll.new_variable(E, 'x', nominal=nom)
    object.__setattr__(v, '_std_dev', SFloat(std.t, core.CallableStdDev) if isinstance(std, Sym) else core.CallableStdDev(std))
    return v, nom, std


def spec_text(prec, u, typ, sign='', zeropad=False, width=None, comma='', fill='', align='', opts=''):
    parts = [fill, align, sign, '0' if zeropad else '']
    if width is not None:
        parts.append(SStr(Tok('int', SInt(width))))
    parts.append(comma)
    if prec is not None:
        parts += ['.', str(prec) if z3.is_int_value(prec) else SStr(Tok('int', SInt(prec)))]
    parts += ['u' if u else '', typ, opts]
    return simp(SStr(*parts))


def check_format(E, nk, sk, prec_mode, typ, lay, opts, call=None, label=''):
    """One call of format(): the text is the documented one.  prec_mode: '', 'p', 'u', 'pu'."""
    prec = None
    if prec_mode[:1].isdigit():
        prec = z3.IntVal(int(prec_mode[0]))
    elif 'p' in prec_mode:
        prec = E.integer('prec').t
        E.assume(prec >= 0)
    width = None
    lay = dict(lay)
    if lay.pop('width', False):
        width = E.integer('width').t
        E.assume(width >= 1)
    x, nom, std = variable(E, nk, sk)
    spec = spec_text(prec, 'u' in prec_mode, typ, width=width, opts=opts, **lay)
    fr = Frame(E, x)
    r = run(E, call or progs.do_format, x, spec)
    D = digits(E, nom, std, prec, 'u' in prec_mode, typ)
    if D is None:
        E.ensure('zero significant digits refused', r[0] == 'exc' and type(r[1]) is ValueError, show(r))
        return None
    if not E.ensure('no exception', r[0] == 'ok', show(r)):
        return None
    want = layout(E, D, typ, prec, width=width, opts=opts, **lay)
    fmtmod.match_text(E, 'text', r[1], want)
    fr.check()
    E.cover('text')
    return D
