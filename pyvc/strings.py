# -*- coding: utf-8 -*-
"""Symbolic strings: concatenations of literals and tokens (formatted symbolic values)."""
import z3
from .engine import Sym, SFloat, SInt, SBool, SNum, Opaque, SFunc, Unsupported, is_num, rv


class Tok(object):
    """A piece of text that stands for a symbolic value.
    kind: 'fmt' (value, spec): format(value, spec); 'int' (value,): decimal digits of an integer;
    'str'/'repr' (value,); 'align' (SStr, fill, align, width); 'raw' (name): any text."""
    __slots__ = ('kind', 'data')

    def __init__(self, kind, *data):
        self.kind, self.data = kind, data

    def key(self):
        out = [self.kind]
        for d in self.data:
            if isinstance(d, SNum):
                out.append((type(d).__name__, z3.simplify(d.t).sexpr()))
            elif isinstance(d, (SStr, Tok)):
                out.append(d.key())
            elif isinstance(d, Sym):
                out.append(('id', id(d)))
            else:
                out.append((type(d).__name__, repr(d)))
        return tuple(out)

    def __repr__(self):
        return '{%s:%s}' % (self.kind, ','.join(str(d) for d in self.data))


class SStr(Sym):
    __slots__ = ('parts',)
    pytype = str

    def __init__(self, *parts):
        out = []
        for p in parts:
            ps = p.parts if isinstance(p, SStr) else (p,)
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != '':
                    out.append(q)
        self.parts = tuple(out)

    def key(self):
        return tuple(p if isinstance(p, str) else p.key() for p in self.parts)

    def __repr__(self):
        return 'S' + repr(self.parts)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, SStr) and self.key() == o.key()

    # engine hooks
    def sym_binop(self, E, op, other, refl):
        if op == '+':
            if isinstance(other, (str, SStr)):
                return simp(SStr(other, self) if refl else SStr(self, other))
            if isinstance(other, Sym) and other.pytype is str:
                raise Unsupported('string concatenation with %r' % other)
            raise TypeError('can only concatenate str')
        if op == '%' and refl and isinstance(other, str):
            return str_binop(E, '%', other, self)
        return NotImplemented

    def sym_len(self, E):
        n = 0
        t = z3.IntVal(0)
        for p in self.parts:
            if isinstance(p, str):
                n += len(p)
            else:
                t2 = E.scale.toklen(p) if E.scale is not None else None
                if t2 is not None:
                    t = t + t2
                    continue
                k = p.key()
                if k not in E.strlens:
                    c = E.fresh('len', z3.IntSort())
                    E.fact(c >= (1 if p.kind != 'raw' else 0))
                    E.strlens[k] = c
                t = t + E.strlens[k]
        return SInt(t + n)

    def sym_truth(self, E):
        for p in self.parts:
            if isinstance(p, str) or p.kind != 'raw':
                return z3.BoolVal(True)
        return self.sym_len(E).t > 0

    def to_float(self, E):
        if E.float_of_str is not None:
            return E.float_of_str(E, self)
        from . import parsing
        return parsing.to_float(E, self)

    def to_int(self, E):
        if len(self.parts) == 1 and self.parts[0].kind == 'int':
            return self.parts[0].data[0]
        from . import parsing
        return parsing.to_int(E, self)


def simp(s):
    if isinstance(s, SStr):
        if not s.parts:
            return ''
        if len(s.parts) == 1 and isinstance(s.parts[0], str):
            return s.parts[0]
    return s


def concat(E, xs):
    if all(isinstance(x, str) for x in xs):
        return ''.join(xs)
    for x in xs:
        if not isinstance(x, (str, SStr)):
            raise TypeError('expected str instance')
    return simp(SStr(*xs))


def to_str(E, x, kind):
    if isinstance(x, str):
        return x if kind == 'str' else repr(x)
    if isinstance(x, SStr):
        if kind == 'str':
            return x
        return SStr(Tok('repr', x))
    if isinstance(x, SInt):
        return SStr(Tok('int', SInt(x.t)))
    if isinstance(x, SBool):
        return 'True' if E.decide(x.t) else 'False'
    if isinstance(x, SFloat):
        if x.cls is not None and kind == 'repr':
            pass
        return SStr(Tok('repr', SFloat(x.t)))
    if isinstance(x, Sym):
        return SStr(Tok(kind, x))
    d = E.dunder(x, '__str__') if kind == 'str' else None
    if d is None:
        d = E.dunder(x, '__repr__')
    if d is not None:
        r = E.call(d, (x,), {})
        if not isinstance(r, (str, SStr)):
            raise TypeError('__str__ returned non-string')
        return r
    from .ops import has_sym
    if has_sym(x) or id(x) in E.side:
        return SStr(Tok('raw', 'str-of-container'))
    return str(x) if kind == 'str' else repr(x)  # native


def fmt_value(E, x, spec):
    if not isinstance(x, Sym) and isinstance(spec, str):
        d = E.dunder(x, '__format__')
        if d is not None:
            return E.call(d, (x, spec), {})
        return format(x, spec)  # native
    if spec == '' and not isinstance(x, SStr):
        return to_str(E, x, 'str')
    if isinstance(x, (SStr, str)) and isinstance(spec, (SStr, str)):
        lead = spec if isinstance(spec, str) else spec.parts[0]
        if isinstance(lead, str) and (lead[1:2] == '=' or lead[:1] == '=' and lead[1:2] not in '<>^'):
            raise ValueError("'=' alignment not allowed in string format specifier")
    if isinstance(x, SStr):
        if spec == '':
            return x
        return SStr(Tok('align', x, spec))
    if isinstance(x, str):
        return SStr(Tok('align', x, spec))
    if isinstance(x, (SNum, float, int)):
        if isinstance(x, SNum):
            x = type(x)(x.t)
        else:
            x = float(x)
        return SStr(Tok('fmt', x, spec))
    d = E.dunder(x, '__format__')
    if d is not None:
        return E.call(d, (x, spec), {})
    raise Unsupported('format(%r, %r)' % (x, spec))


def sym_format(E, me, args, kwargs):
    """str.format(): each replacement field is format(value, spec)."""
    import string
    import _string
    auto = [0]

    def field(name):
        first, rest = _string.formatter_field_name_split(name)
        if first == '':
            first = auto[0]
            auto[0] += 1
        v = args[first] if isinstance(first, int) else kwargs[first]
        for is_attr, k in rest:
            v = E.getattr(v, k) if is_attr else E.getitem(v, k)
        return v

    def go(text, depth):
        if depth > 2:
            raise ValueError('Max string recursion exceeded')
        out = []
        for literal, name, spec, conv in string.Formatter().parse(text):
            if literal:
                out.append(literal)
            if name is None:
                continue
            v = field(name)
            if conv == 'r':
                v = E.call(repr, (v,), {})
            elif conv == 's':
                v = E.call(str, (v,), {})
            elif conv:
                raise Unsupported('conversion !%s' % conv)
            out.append(E.call(format, (v, go(spec, depth + 1) if spec else ''), {}))
        return concat(E, out)
    return go(me, 1)


def str_method(E, me, name, args, kwargs):
    if name == 'join' and isinstance(me, str):
        xs = list(E.iterate(args[0]))
        out = []
        for i, x in enumerate(xs):
            if i:
                out.append(me)
            out.append(x)
        return concat(E, out)
    if name == 'format' and isinstance(me, str):
        from .ops import has_sym
        if any(has_sym(a) for a in args) or any(has_sym(a) for a in kwargs.values()):
            return sym_format(E, me, args, kwargs)
        return me.format(*args, **kwargs)  # native
    if name == 'format_map' and isinstance(me, str):
        return sym_format(E, me, (), args[0])
    if isinstance(me, str) and not any(isinstance(a, Sym) for a in args):
        return getattr(me, name)(*args, **kwargs)
    if isinstance(me, SStr):
        if name == 'translate' and len(args) == 1 and isinstance(args[0], dict) and any(
                not isinstance(p, str) and p.kind == 'int' for p in me.parts):
            def tr(tok):
                if tok.kind != 'int':
                    raise Unsupported('translate of %r' % (tok,))
                return Tok('trans', tok, tuple(chr(c).translate(args[0]) for c in b'+-0123456789'))
            return simp(SStr(*[p.translate(args[0]) if isinstance(p, str) else tr(p) for p in me.parts]))
        if E.str_hook is not None:
            r = E.str_hook(E, me, name, args, kwargs)
            if r is not NotImplemented:
                return r
        from . import parsing
        r = parsing.str_hook(E, me, name, args, kwargs)
        if r is not NotImplemented:
            return r
    if isinstance(me, str) and all(isinstance(a, (str, SStr, int, type(None), tuple)) for a in args) and name != 'format':
        from . import parsing
        return parsing.native(E, lambda s, *a, **k: getattr(s, name)(*a, **k), me, *args, **kwargs)
    raise Unsupported('str.%s on a symbolic string' % name)


def str_binop(E, op, a, b):
    if op == '+':
        if isinstance(b, SStr):
            return simp(SStr(a, b))
        if is_num(b):
            raise TypeError('can only concatenate str')
        raise Unsupported('str + %r' % b)
    # a % b
    from .ops import has_sym
    if isinstance(a, str) and not has_sym(b) and not isinstance(b, tuple):
        d = E.dunder(b, '__str__') or E.dunder(b, '__repr__')
        if d is None:
            return a % b
        b = (b,)
    args = b if isinstance(b, tuple) else (b,)
    if not any(has_sym(x) or E.dunder(x, '__str__') or E.dunder(x, '__repr__') for x in args):
        return a % b
    out = []
    i = 0
    k = 0
    while i < len(a):
        j = a.find('%', i)
        if j < 0:
            out.append(a[i:])
            break
        out.append(a[i:j])
        j += 1
        if a[j] == '%':
            out.append('%')
            i = j + 1
            continue
        m = j
        while a[m] not in 'sdrfgeEFGixX':
            m += 1
        conv, flags = a[m], a[j:m]
        if '*' in flags:
            star = args[k]
            k += 1
            flags_pre, flags_post = flags.split('*')
            prec = to_str(E, star, 'str')
            flags = SStr(flags_pre, prec, flags_post)
            flags = simp(flags)
        if k >= len(args):
            raise TypeError('not enough arguments for format string')
        v = args[k]
        k += 1
        if conv in 'sr' and flags == '':
            out.append(to_str(E, v, 'str' if conv == 's' else 'repr'))
        elif conv == 'd' and flags == '':
            if isinstance(v, SNum):
                v = E.trunc(v)
                out.append(SStr(Tok('int', SInt(v.t))))
            elif isinstance(v, Sym):
                raise TypeError('%d format: a real number is required')
            else:
                out.append('%d' % v)
        elif isinstance(v, (SNum, float, int)) and not (isinstance(v, (float, int)) and isinstance(flags, str)):
            if conv == 'd' and isinstance(v, SNum):
                v = E.trunc(v)
            elif isinstance(v, SFloat):
                v = SFloat(v.t)
            out.append(SStr(Tok('pct', v, simp(SStr(flags, conv)))))
        elif not isinstance(v, Sym) and isinstance(flags, str):
            out.append(('%' + flags + conv) % v)
        else:
            raise Unsupported('%%%s of %r' % (conv, v))
        i = m + 1
    if k != len(args):
        raise TypeError('not all arguments converted during string formatting')
    return concat(E, out)
