# -*- coding: utf-8 -*-
"""Bounded run-time layer: cases (Python literals), checks against independent oracles.

A module rt.cNN defines FIXED (list of cases), gen(rng) -> case, check(case) -> None or error
text (raises Skip when the case is outside the property's quantifier).
"""
import hashlib, importlib, json, math, os, random, signal, sys, time, traceback, warnings

for _p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if _p not in sys.path:
        sys.path.append(_p)
REPO = os.environ.get('VP_REPO', '/repo')
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')


class Skip(Exception):
    pass


nan, inf = float('nan'), float('inf')


def enc(case):
    return repr(case)


def dec(text):
    return eval(text, {'nan': nan, 'inf': inf, '__builtins__': {'set': set, 'frozenset': frozenset, 'True': True,
                                                                  'False': False, 'None': None}})


class CaseTimeout(Exception):
    pass


def _alarm(*a):
    raise CaseTimeout('the case took more than 20 s')


def run_case(mod, case):
    """None, or an error text; 'skip' is signalled by Skip."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(20)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return mod.check(case)
    except Skip:
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        return 'unexpected %s: %s [%s]' % (type(e).__name__, e, _where())
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _where():
    tb = traceback.extract_tb(sys.exc_info()[2])
    return ' <- '.join('%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:][::-1])


def worker(modname, seed, n, seconds, do_fixed):
    """Runs cases; returns a dict of measurements."""
    mod = importlib.import_module('rt.' + modname)
    rng = random.Random(seed)
    t0 = time.time()
    seen = set()
    ev = sk = 0
    fails = []
    samples = []

    def one(case):
        nonlocal ev, sk
        try:
            e = run_case(mod, case)
        except Skip:
            sk += 1
            return
        ev += 1
        text = enc(case)
        h = hashlib.md5(text.encode('utf8', 'surrogatepass')).digest()[:8]
        if h not in seen:
            seen.add(h)
            if len(samples) < 3 and rng.random() < 0.2:
                samples.append(text[:400])
        if e:
            fails.append((text, e))
    if do_fixed:
        for c in mod.FIXED:
            one(c)
            if len(fails) >= 3:
                break
    i = 0
    while i < n and len(fails) < 3 and time.time() - t0 < seconds:
        one(mod.gen(rng))
        i += 1
    return dict(evaluations=ev, skipped=sk, distinct=[h.hex() for h in seen], fails=fails, samples=samples,
                generated=i)


def close(a, b, rel=1e-9, absol=0.):
    """a == b up to tolerance; NaN equals NaN, infinities must match."""
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), absol)


def same(a, b):
    """Exactly the same float (NaN = NaN, signed zeros distinguished only by ==)."""
    return a == b or (a != a and b != b)
