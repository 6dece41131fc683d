# -*- coding: utf-8 -*-
"""Runs proof units (each in a process of its own, see check.py).

pyvc/units/cNN.py defines UNITS: an ordered dict  name -> harness(E)  or  name -> (harness, {options}).
"""
import importlib, os, sys, time
import rt.base   # paths: the code under test comes from VP_REPO or /repo
UNIT_TIMEOUT = {'quick': 60., 'thorough': 400.}


def load(pid):
    try:
        return importlib.import_module('pyvc.units.' + pid.lower())
    except ModuleNotFoundError as e:
        if 'pyvc.units' in str(e):
            return None
        raise


def units(pid, tier):
    mod = load(pid)
    if mod is None:
        return []
    out = []
    for n, u in mod.UNITS.items():
        o = u[1] if isinstance(u, tuple) else {}
        if o.get('thorough') and tier != 'thorough':
            continue
        out.append(n)
    return out


def guarded(harness):
    """harness, with an obligation for the numbers that it compares with the specification: they are not NaN or infinite."""
    def h(E):
        try:
            return harness(E)
        except (ValueError, OverflowError) as e:
            fs, tb = [], e.__traceback__
            while tb is not None:
                fs.append(tb.tb_frame.f_code)
                tb = tb.tb_next
            n = [i for i, c in enumerate(fs) if c.co_name == 'term' and c.co_filename.endswith('engine.py')]
            if not n or os.path.basename(os.path.dirname(fs[n[-1] - 1].co_filename)) != 'units':
                raise
            E.ensure('a number compared with the specification is finite', False, str(e))
    return h


def run_unit(pid, name, tier, keep=None):
    t0 = time.time()
    mod = load(pid)
    u = mod.UNITS[name]
    harness, opts = u if isinstance(u, tuple) else (u, {})
    from . import engine, coll, backends
    budget = UNIT_TIMEOUT[tier]
    E = coll.CollMachine('%s:%s' % (pid, name), deadline=t0 + budget * .95)
    if tier == 'thorough':
        E.GOAL_TIMEOUT = 30000
    for k, v in opts.items():
        if k.isupper():
            setattr(E, k, v)
    if keep is not None:
        keep.append(E)
    status = 'ok'
    try:
        E.explore(guarded(harness))
    except engine.Unsupported as e:
        status = 'outside the verified subset: %s%s' % (e, where(e))
    except engine.Timeout as e:
        status = 'timeout: %s' % e
    except RecursionError as e:
        status = 'recursion limit'
    except engine.EngineSignal as e:
        status = 'engine: %s %s' % (type(e).__name__, e)
    except Exception as e:
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        status = 'harness error %s: %s at %s:%d' % (type(e).__name__, str(e)[:200], os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno)
    for lab, ok in E.covers.items():
        if not ok:
            status = 'vacuous: %s is unreachable' % lab
    need = opts.get('covers', ())
    for lab in need:
        if status == 'ok' and not E.covers.get(lab):
            status = 'vacuous: %s was not reached' % lab
    if status == 'ok' and not E.obligations:
        status = 'no obligation was generated'
    return dict(obligations=[o.as_dict() for o in E.obligations], paths=E.paths, solver_time=E.solver_time,
                status=status, covers=dict(E.covers), functions=dict(E.functions),
                contracts=dict((getattr(k, '__name__', str(k)), v) for k, v in E.contract_uses.items()),
                assumptions=sorted(E.assumptions) if isinstance(E.assumptions, dict) else list(E.assumptions),
                time=time.time() - t0, backends=dict(backends.STATS))


def where(e):
    import traceback
    w = getattr(e, 'pywhere', None)
    return ' [%s]' % w if w else ''


def verbose(pid, name):
    """Runs units and prints every obligation that is not discharged."""
    rc = 0
    for n in units(pid, 'thorough') if name == 'all' else [name]:
        r = run_unit(pid, n, os.environ.get('VERIF_TIER', 'quick'))
        c = {}
        for o in r['obligations']:
            c[o['status']] = c.get(o['status'], 0) + 1
        print('%-40s %s paths=%d %s %.1f s (solver %.1f)' % (n, r['status'], r['paths'], c, r['time'], r['solver_time']), flush=True)
        shown = 0
        for o in r['obligations']:
            if o['status'] != 'discharged' and shown < 6:
                shown += 1
                print('   ', o['status'], o['name'], (o['detail'] or '')[:600], o['model'] or '')
        if name != 'all':
            print('functions:', r['functions'])
            print('assumptions:', r['assumptions'])
            print('covers:', r['covers'])
    return rc
