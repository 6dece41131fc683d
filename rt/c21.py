# -*- coding: utf-8 -*-
"""C21: the 1to2 converter."""
import ast, io, tokenize
from .base import *
import uncertainties
warnings.simplefilter('ignore')
from lib2to3.refactor import RefactoringTool
from lib2to3 import refactor

_TOOL = None


def fixers():
    """The fixers that python -m uncertainties.1to2 uses."""
    return refactor.get_fixers_from_package('uncertainties.lib1to2.fixes')


def tool():
    global _TOOL
    if _TOOL is None:
        _TOOL = RefactoringTool(sorted(fixers()))
    return _TOOL


def convert(s):
    return str(tool().refactor_string(s + '\n', '<s>'))[:-1]


def tokens(s):
    out = []
    for t in tokenize.generate_tokens(io.StringIO(s + '\n').readline):
        if t.type in (tokenize.NL, tokenize.ENDMARKER):
            continue
        out.append((tokenize.tok_name[t.type], t.string if t.type not in (tokenize.INDENT, tokenize.NEWLINE) else ''))
    return out


def check(case):
    lines = case
    old = '\n'.join(o for o, n in lines)
    new = '\n'.join(n for o, n in lines)
    try:
        ast.parse(old)
        ast.parse(new)
    except SyntaxError:
        raise Skip
    got = convert(old)
    try:
        ast.parse(got)
    except SyntaxError:
        return '%r is converted to invalid code %r' % (old, got)
    if tokens(got) != tokens(new):
        gl = got.split('\n')
        for (o, n), g in zip(lines, gl):
            if tokens1(g) != tokens1(n):
                return '%r is converted to %r instead of %r' % (o, g, n)
        return '%r is converted to %r instead of %r' % (old, got, new)
    gl = got.split('\n')
    for (o, n), g in zip(lines, gl):
        if o == n and g != o:
            return 'unaffected code %r changed to %r' % (o, g)
        if [c for c in (o.partition('#')[2],)] != [g.partition('#')[2]]:
            return 'comment of %r changed: %r' % (o, g)
    again = convert(got)
    if again != got:
        return 'converting %r twice gives %r, then %r' % (old, got, again)


def tokens1(s):
    try:
        return tokens(s)
    except Exception:
        return s.split()


NAMES = ['x', 'y', 'a1', 'value', 'ufloat_x', 'my_std_dev', 'arr']
FN = ['f', 'math.sqrt', 'g', 'h.p', 'self.run', 'std_dev', 'uncertainties.std_dev', 'unumpy.std_devs', 'nominal_value']
STR = ['"1.2+/-0.3"', "'1(2)'", 'u"1.5(2)"', '"3"', "r'2.0'", '"""4(1)"""']


def prefix(r, names=('unc', 'uncertainties', 'u', 'unumpy', 'un')):
    return r.choice(['', '', r.choice(names) + '.'])


def c(r, *parts):
    """Joins parts (strings or pairs) into a pair."""
    return ''.join(p if isinstance(p, str) else p[0] for p in parts), ''.join(p if isinstance(p, str) else p[1] for p in parts)


def same_(s):
    return s, s


def primary(r, d):
    k = r.random()
    if d <= 0 or k < .35:
        return same_(r.choice(NAMES))
    if k < .45:
        return c(r, primary(r, d - 1), '.', r.choice(['real', 'n', 'nominal_value', 'std_dev', 'attr', 'std_devs', 's']))
    if k < .55:
        return c(r, primary(r, d - 1), '[', expr(r, d - 1), ']')
    if k < .65:
        return c(r, r.choice(FN), '(', args(r, d - 1), ')')
    if k < .72:
        return c(r, '(', expr(r, d - 1), ')')
    if k < .86:
        p = primary(r, d - 1)
        # (no call following a converted call, which would be a call of the result)
        if '.std_dev' in p[0]:
            # (a converted chain inside an argument is fine, but not several in the same chain)
            p = c(r, r.choice(['x', 'f']), r.choice(['[', '(']), p)
            p = p[0] + (']' if p[0][1] == '[' else ')'), p[1] + (']' if p[1][1] == '[' else ')')
        a = r.choice(['std_dev', 'std_devs'])
        return p[0] + '.' + a + '()', p[1] + '.' + a
    return creation(r, d)


def creation(r, d):
    k = r.random()
    pr = prefix(r)
    if k < .25:
        a, b = notstring(r, d - 1), expr(r, d - 1)
        sp = r.choice(['', ' '])
        return pr + 'ufloat((%s,%s%s))' % (a[0], sp, b[0]), pr + 'ufloat(%s,%s%s)' % (a[1], sp, b[1])
    if k < .35:
        a, b, t = notstring(r, d - 1), expr(r, d - 1), tag(r, d - 1)
        return pr + 'ufloat((%s, %s), %s)' % (a[0], b[0], t[0]), pr + 'ufloat(%s, %s, %s)' % (a[1], b[1], t[1])
    if k < .45:
        s = r.choice(STR)
        return pr + 'ufloat(%s)' % s, pr + 'ufloat_fromstr(%s)' % s
    if k < .52:
        s, t = r.choice(STR), tag(r, d - 1)
        return pr + 'ufloat(%s, %s)' % (s, t[0]), pr + 'ufloat_fromstr(%s, %s)' % (s, t[1])
    f = r.choice(['uarray', 'umatrix'])
    if k < .65:
        a, b = expr(r, d - 1), expr(r, d - 1)
        return pr + '%s((%s, %s))' % (f, a[0], b[0]), pr + '%s(%s, %s)' % (f, a[1], b[1])
    if k < .8:
        a = r.choice([same_(r.choice(NAMES)), starrable(r, d - 1)])
        return pr + '%s(%s)' % (f, a[0]), pr + '%s(*%s)' % (f, a[1])
    # current forms
    if k < .84:
        return c(r, pr, 'ufloat(', notstring(r, d - 1), ', ', expr(r, d - 1), ')')
    if k < .88:
        return c(r, pr, 'ufloat_fromstr(', r.choice(STR), ')')
    if k < .92:
        return c(r, pr, f, '(', expr(r, d - 1), ', ', expr(r, d - 1), ')')
    if k < .94:
        return c(r, pr, f, '(*', same_(r.choice(NAMES)), ')')
    if k < .96:
        return c(r, pr, f, '(nominal_values=', expr(r, d - 1), ', std_devs=', expr(r, d - 1), ')')
    if k < .98:
        return c(r, pr, 'ufloat(', primary_name(r, d - 1), ')')
    return c(r, pr, 'ufloat(nominal_value=', expr(r, d - 1), ', std_dev=', expr(r, d - 1), ')')


def primary_name(r, d):
    return same_(r.choice(NAMES) + r.choice(['', '[0]', '.attr', '()']))


def tag(r, d):
    return r.choice([same_('"tag"'), same_("'a'"), same_('t'), same_('tag="z"'), c(r, 'tag=', expr(r, d - 1)), same_('None'), same_('""'),
                     same_("''"), same_('tag=""'), same_('tag=None'), same_('u"x"'), same_("' '"), same_('"a" "b"'), same_('"%s" % n'), same_('**kw'),
                     same_('*l'), same_('a or "b"'), same_('"a" if n else None'), c(r, primary(r, min(d, 1)))])


def starrable(r, d):
    """Argument which is a single sequence (not a 2-tuple)."""
    k = r.random()
    if k < .3:
        return c(r, '[', expr(r, d - 1), ', ', expr(r, d - 1), ']')
    if k < .5:
        return c(r, primary(r, min(d, 1)))
    if k < .7:
        return c(r, r.choice(FN), '(', args(r, d - 1), ')')
    if k < .85:
        return c(r, expr1(r, d - 1), ' + ', expr1(r, d - 1))
    return c(r, '[', expr(r, d - 1), ' for k in ', primary_name(r, 0), ']')


def notstring(r, d):
    return expr(r, d)


def expr1(r, d):
    return primary(r, d)


def expr(r, d):
    k = r.random()
    if d <= 0 or k < .2:
        return same_(r.choice(NAMES + ['1', '2.5', '-3', '1e-5', 'None']))
    if k < .6:
        return primary(r, d)
    if k < .75:
        return c(r, primary(r, d - 1), r.choice([' + ', '*', ' - ', '/', '**', ' and ', ' < ', ' == ']), primary(r, d - 1))
    if k < .8:
        return c(r, r.choice(['-', 'not ', '+']), primary(r, d - 1))
    if k < .88:
        return c(r, '[', expr(r, d - 1), ', ', expr(r, d - 1), ']')
    if k < .92:
        return c(r, '(', expr(r, d - 1), ', ', expr(r, d - 1), ', ', expr(r, d - 1), ')')
    if k < .96:
        return c(r, '{', r.choice(['1', '"k"']), ': ', expr(r, d - 1), '}')
    return c(r, '(', expr(r, d - 1), ' if ', expr(r, d - 1), ' else ', expr(r, d - 1), ')')


def args(r, d):
    n = r.randint(1, 3)
    out = []
    for i in range(n):
        out.append(expr(r, d))
    if r.random() < .2:
        out.append(c(r, 'key=', expr(r, d)))
    return ', '.join(o for o, n in out), ', '.join(n for o, n in out)


def line(r, ind=''):
    d = r.choice([1, 2, 2, 3])
    k = r.random()
    com = r.choice(['', '', '', '  # x.std_dev() ufloat((1, 2))', ' # comment'])
    if k < .25:
        o, n = expr(r, d)
    elif k < .45:
        o, n = c(r, r.choice(['z = ', 'z += ', 'x.attr = ', 'z = w = ', 'x.std_dev = ', 'return_ = ']), expr(r, d))
    elif k < .65:
        p, e = r.choice([primary_name(r, 0), stdable(r, d - 1)]), expr(r, d)
        if r.random() < .2:
            e = c(r, *r.choice([(e, ' if ', expr(r, 0), ' else ', expr(r, 1)), ('lambda: ', e), (primary(r, 1), ' or ', e), ('not ', primary(r, 1)),
                                ('-', primary(r, 1), '**2'), (primary(r, 1), ' < ', primary(r, 1))]))
        if e[0].startswith('(') and e[0].endswith(')'):
            e = same_('x')
        o, n = p[0] + '.set_std_dev(' + e[0] + ')', p[1] + '.std_dev = ' + e[1]
    elif k < .69:
        # (not a statement, or not a positional argument: not converted)
        e = expr(r, min(d, 1))
        f = r.choice(['z = %s', 'f(%s)', '[%s for x in y]', 'lambda: %s', '%s if a else b', '%s, y', '%s.real', 'a and %s', None, None, None])
        if f is None:
            a = r.choice(['*%s', 'value=%s', '**%s'])
            o, n = 'x.set_std_dev(%s)' % (a % e[0]), 'x.set_std_dev(%s)' % (a % e[1])
        else:
            o, n = f % ('x.set_std_dev(%s)' % e[0]), f % ('x.set_std_dev(%s)' % e[1])
    elif k < .73:
        o, n = c(r, 'assert ', expr(r, d))
    elif k < .78:
        o, n = c(r, 'for q in ', primary(r, d), ': f(', expr(r, d), ')')
    elif k < .83:
        o, n = c(r, 'if ', expr(r, d), ': z = ', expr(r, d))
    elif k < .87:
        o, n = c(r, 'fun = lambda u, v=', expr(r, d - 1), ': ', expr(r, d))
    elif k < .9:
        o, n = same_(r.choice(['import uncertainties', 'from uncertainties import ufloat, std_dev', 'def std_dev(): pass', 'def set_std_dev(self, v): pass',
                               'x = """x.std_dev() ufloat((1, 2))"""', 'std_dev()', 'set_std_dev(3)', 'uarray = 3', 'x.uarray', 'ufloat', 'x.std_dev(2)',
                               'f(ufloat=(1, 2))', 'del x.std_dev', '@std_dev\ndef f(): pass'.replace('\n', ';') if 0 else 'global_ = x.std_dev']))
    else:
        o, n = c(r, r.choice(['return_(', 'pr(', 'f(', 'self.assertEqual(']), args(r, d), ')')
    if '\n' in o:
        com = ''
    return ind + o + com, ind + n + com


def stdable(r, d):
    k = r.random()
    if k < .4 or d <= 0:
        return same_(r.choice(['x', 'self.x', 'obj.attr', 'x[1]', 'f(x)', 'l[0].y']))
    if k < .7:
        return c(r, r.choice(['x', 'self.d']), '[', expr(r, d - 1), ']')
    return c(r, r.choice(['f', 'self.get']), '(', args(r, d - 1), ')')


def _p(o, n=None):
    return [(o, o if n is None else n)]


FIXED = [_p('ufloat((1, 2), "")', 'ufloat(1, 2, "")'), _p("ufloat('1(2)', '')", "ufloat_fromstr('1(2)', '')"), _p('ufloat((1, 2), None)', 'ufloat(1, 2, None)'),
         _p('x.set_std_dev(*a)'), _p('x.set_std_dev(value=3)'), _p('[x.set_std_dev(3) for x in y]'), _p('f(x.set_std_dev(3))'), _p('z = x.set_std_dev(3)'),
         _p('x.set_std_dev(3); y = x.std_dev()', 'x.std_dev = 3; y = x.std_dev'), _p('if a: x.set_std_dev(-y)', 'if a: x.std_dev = -y'),
         _p('x.set_std_dev(a if b else d)', 'x.std_dev = a if b else d'), _p('x.set_std_dev(a or b)', 'x.std_dev = a or b'),
         _p('x.std_dev()', 'x.std_dev'), _p('x.std_devs()', 'x.std_devs'), _p('x.set_std_dev(3)', 'x.std_dev = 3'), _p('x.y.set_std_dev(y.std_dev())', 'x.y.std_dev = y.std_dev'),
         _p('x.std_dev()**2', 'x.std_dev**2'), _p('x.std_devs()**2', 'x.std_devs**2'), _p('x.std_devs()[0]', 'x.std_devs[0]'), _p('x.std_dev().real', 'x.std_dev.real'),
         _p('f(x).std_dev()+g(y.std_dev())', 'f(x).std_dev+g(y.std_dev)'), _p('ufloat((1, 2))', 'ufloat(1, 2)'), _p('ufloat((1, 2), "a")', 'ufloat(1, 2, "a")'),
         _p('ufloat((1, 2), tag="a")', 'ufloat(1, 2, tag="a")'), _p('ufloat("1+/-2")', 'ufloat_fromstr("1+/-2")'), _p('ufloat("1", "t")', 'ufloat_fromstr("1", "t")'),
         _p('unc.ufloat("1", tag="t")', 'unc.ufloat_fromstr("1", tag="t")'), _p('unc.ufloat((x.std_dev(), 2))', 'unc.ufloat(x.std_dev, 2)'),
         _p('unc.ufloat((x.std_dev(), 2), "s")', 'unc.ufloat(x.std_dev, 2, "s")'), _p('ufloat((1, 2)).std_dev()', 'ufloat(1, 2).std_dev'),
         _p('-ufloat((1, 2))**2', '-ufloat(1, 2)**2'), _p('ufloat("1(2)")**2', 'ufloat_fromstr("1(2)")**2'), _p('un.ufloat("1(2)", "t").n', 'un.ufloat_fromstr("1(2)", "t").n'),
         _p('ufloat((1, (2, 3)))', 'ufloat(1, (2, 3))'), _p('ufloat(1, 2)'), _p('ufloat(1, 2, "a")'), _p('ufloat(x)'), _p('ufloat_fromstr("1")'), _p('std_dev(x)'),
         _p('uncertainties.std_dev(x)'), _p('x.std_dev(2)'), _p('uarray((a, b))', 'uarray(a, b)'), _p('uarray(x)', 'uarray(*x)'), _p('uarray(*x)'), _p('umatrix(x).I', 'umatrix(*x).I'),
         _p('unumpy.umatrix((a, b)).I', 'unumpy.umatrix(a, b).I'), _p('unumpy.uarray(f(x))', 'unumpy.uarray(*f(x))'), _p('unumpy.uarray(*f(x))'), _p('uarray(nominal_values=x)'),
         _p('uarray(std_devs=y, nominal_values=x)'), _p('uarray(x, y)'), _p('umatrix(x, y)'), _p('uarray(**kw)'), _p('uarray([a, b])', 'uarray(*[a, b])'),
         _p('uarray((a, b, d))', 'uarray(*(a, b, d))'), _p('uarray((uarray(x), y.std_dev()))', 'uarray(uarray(*x), y.std_dev)'), _p('unumpy.umatrix(([1, 2], [.1, .2]))', 'unumpy.umatrix([1, 2], [.1, .2])'),
         _p('u.umatrix(x)**2', 'u.umatrix(*x)**2'), _p('if x.std_dev(): pass', 'if x.std_dev: pass'), _p('[x.std_dev() for x in y]', '[x.std_dev for x in y]'),
         _p('x.set_std_dev(x.std_dev()*2)', 'x.std_dev = x.std_dev*2'), _p('x[0].set_std_dev(1)', 'x[0].std_dev = 1'), _p('f(x).set_std_dev(1)', 'f(x).std_dev = 1'),
         _p('other(x).std_dev'), _p('x.std_dev = 3'), _p('std_dev()'), _p('set_std_dev(3)'), _p('ufloat'), _p('uarray()'), _p('f(ufloat=(1, 2))'),
         [('if x:', 'if x:'), ('    y = x.std_dev()', '    y = x.std_dev'), ('    x.set_std_dev(y)  # c', '    x.std_dev = y  # c'), ('z = 1', 'z = 1')]]


def gen(r):
    out = []
    for _ in range(r.randint(1, 4)):
        if r.random() < .2:
            h = r.choice(['if x:', 'def fun(self):', 'while f(x):', 'class A(object):', 'for i in y:'])
            out.append((h, h))
            for _ in range(r.randint(1, 3)):
                out.append(line(r, '    '))
        else:
            out.append(line(r))
    return out
