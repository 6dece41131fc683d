#!/opt/venv/bin/python
# -*- coding: utf-8 -*-
"""check.py Cnn            decides one property on /repo's current tree
check.py Cnn --replay F    replays a reported violation
check.py Cnn --unit NAME   runs one proof unit verbosely (development)

Two layers (see DESIGN.md):
  1. pyvc: contract-based deductive verification of the bytecode of the real functions of /repo
     (every obligation regenerated and re-proved on every run);
  2. rt: bounded run-time contracts checked against independent oracles (labelled bounded), which
     stands in for what the verifier does not reach and searches failing inputs.
Exit 0: held (or undecided by the prover and held on everything the bounded layer explored);
exit 1 + VIOLATION line.  Nothing else.
"""
import os, sys
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
if sys.path[0] != HERE:
    sys.path.insert(0, HERE)
import hashlib, json, multiprocessing, random, signal, time, traceback

TECH = 'deductive verification (contracts on the real bytecode, SMT) + bounded run-time contracts'

# bounded cases per worker: quick, thorough
COUNTS = {
    'C01': 1500, 'C02': 2500, 'C03': 8000, 'C04': 8000, 'C05': 8000, 'C06': 4000, 'C07': 4000, 'C08': 1500,
    'C09': 2000, 'C10': 4000, 'C11': 1500, 'C12': 4000, 'C13': 2500, 'C14': 5000, 'C15': 5000, 'C16': 5000,
    'C17': 8000, 'C18': 6000, 'C19': 2500, 'C20': 2500, 'C21': 900}
WORKERS = 5
QUICK_S, THOROUGH_S = 25., 420.


def known_findings():
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            return json.load(f)
    except Exception:
        return {'findings': []}


def forked(fn, args, timeout):
    """Runs fn(*args) in a forked child; (status, result)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            signal.alarm(0)
            try:
                out = ('ok', fn(*args))
            except BaseException as e:
                out = ('error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            with os.fdopen(w, 'wb') as f:
                f.write(json.dumps(out, default=str).encode('utf8', 'surrogateescape'))
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    return Child(pid, r, time.time() + timeout)


class Child(object):
    def __init__(self, pid, fd, deadline):
        self.pid, self.fd, self.deadline = pid, fd, deadline
        self.buf = b''
        self.out = None
        os.set_blocking(fd, False)

    def poll(self):
        """True when finished (self.out set)."""
        import select
        while True:
            try:
                b = os.read(self.fd, 1 << 16)
            except BlockingIOError:
                if time.time() > self.deadline:
                    try:
                        os.killpg(self.pid, signal.SIGKILL)
                    except OSError:
                        try:
                            os.kill(self.pid, signal.SIGKILL)
                        except OSError:
                            pass
                    os.waitpid(self.pid, 0)
                    os.close(self.fd)
                    self.out = ('timeout', None)
                    return True
                return False
            if not b:
                os.close(self.fd)
                os.waitpid(self.pid, 0)
                try:
                    self.out = tuple(json.loads(self.buf.decode('utf8')))
                except ValueError:
                    self.out = ('error', 'the process died')
                return True
            self.buf += b


def run_pool(jobs, slots, t_end):
    """jobs: list of (key, fn, args, timeout); returns {key: (status, result)}."""
    res = {}
    todo = list(jobs)
    running = {}
    while todo or running:
        while todo and len(running) < slots:
            key, fn, args, timeout = todo.pop(0)
            left = t_end - time.time()
            if left < 1:
                res[key] = ('timeout', None)
                continue
            running[key] = forked(fn, args, min(timeout, left))
        for key in list(running):
            if running[key].poll():
                res[key] = running[key].out
                del running[key]
        time.sleep(0.005)
    return res


def rt_job(mod, seed, n, seconds, fixed):
    from rt import base
    return base.worker(mod, seed, n, seconds, fixed)


def unit_job(pid, name, tier):
    from pyvc import runner
    return runner.run_unit(pid, name, tier)


def main():
    pid = sys.argv[1].upper()
    t0 = time.time()
    if '--replay' in sys.argv:
        return replay(pid, sys.argv[sys.argv.index('--replay') + 1])
    if '--unit' in sys.argv:
        from pyvc import runner
        return runner.verbose(pid, sys.argv[sys.argv.index('--unit') + 1])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv else 'quick'
    try:
        rc = check(pid, seed, tier, t0)
    except BaseException as e:   # an error of the checker itself decides nothing
        if isinstance(e, KeyboardInterrupt):
            raise
        sys.stdout.flush()
        print('checker error (undecided): %s: %s' % (type(e).__name__, e))
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    return rc


def check(pid, seed, tier, t0):
    quick = tier == 'quick'
    mod = pid.lower()
    jobs = []
    units = []
    import_error = None
    try:
        from pyvc import runner
        units = runner.units(pid, tier)
        unit_s = runner.UNIT_TIMEOUT[tier]
    except Exception as e:
        import_error = '%s: %s' % (type(e).__name__, e)
        unit_s = 0
    for name in units:
        jobs.append((('unit', name), unit_job, (pid, name, tier), unit_s))
    n = COUNTS[pid] * (1 if quick else 40)
    secs = QUICK_S if quick else THOROUGH_S
    rtj = []
    for k in range(WORKERS if quick else 7):
        rtj.append((('rt', k), rt_job, (mod, seed * 1000 + k, n, secs, k == 0), secs + 60))
    # the workers first: they are long
    t_end = t0 + (600 if quick else 850)
    res = run_pool(rtj[:3] + jobs + rtj[3:], 8, t_end)

    # ---- bounded layer
    ev = sk = 0
    distinct = set()
    samples = []
    rt_fails = []
    rt_errors = []
    for key, (st, out) in sorted(res.items(), key=str):
        if key[0] != 'rt':
            continue
        if st != 'ok':
            rt_errors.append('%s: %s' % (key[1], str(out)[:500] if out else st))
            continue
        ev += out['evaluations']
        sk += out['skipped']
        distinct.update(out['distinct'])
        samples += out['samples']
        for c, e in out['fails']:
            rt_fails.append((c, e))
    # ---- proof layer
    obl = []
    undecided = []
    unitinfo = []
    functions = {}
    assumptions = set()
    solver_time = 0.
    backends = {}
    refuted = []
    for key, (st, out) in sorted(res.items(), key=str):
        if key[0] != 'unit':
            continue
        name = key[1]
        if st != 'ok':
            undecided.append('%s: %s' % (name, 'time limit' if st == 'timeout' else str(out)[:400]))
            unitinfo.append(dict(unit=name, obligations=0, discharged=0, status='undecided'))
            continue
        os_ = out['obligations']
        nd = sum(o['status'] == 'discharged' for o in os_)
        unitinfo.append(dict(unit=name, obligations=len(os_), discharged=nd, paths=out['paths'],
                             solver_s=round(out['solver_time'], 3), status=out['status'], covers=len(out['covers'])))
        obl += os_
        solver_time += out['solver_time']
        for f, c in out['functions'].items():
            functions[f] = functions.get(f, 0) + c
        assumptions.update(out['assumptions'])
        for o in os_:
            if o['status'] == 'discharged':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            elif o['status'] == 'refuted':
                refuted.append((name, o))
            else:
                undecided.append('%s: %s %s' % (o['name'], o['status'], (o['detail'] or '')[:200]))
        if out['status'] != 'ok':
            undecided.append('%s: %s' % (name, out['status']))
    if import_error:
        undecided.append('the package or the verifier cannot be loaded: ' + import_error)

    # ---- verdict
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    kf = [f for f in known_findings().get('findings', []) if f.get('property') == pid]
    known = [f for f in kf if f.get('status') == 'known']
    lines = []
    news = []
    for c, e in rt_fails:
        hit = [f for f in known if f.get('case') == c]
        if hit:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, hit[0]['what']))
        else:
            news.append((c, e))
    rc = 0
    if news or refuted:
        rc = 1
        data = dict(property=pid, seed=seed, tier=tier)
        if refuted:
            name, o = refuted[0]
            data['failed_obligations'] = [dict(unit=n_, obligation=o_['name'], counter_model=o_['model'],
                                               backend=o_['backend'], verifier_output=o_['detail'])
                                          for n_, o_ in refuted[:10]]
        if not news:
            news = search_more(pid, mod, seed, known)
        if news:
            c, e = min(news, key=lambda x: len(x[0]))
            data['case'], data['error'] = c, e
        h = hashlib.md5(json.dumps(data, sort_keys=True, default=str).encode('utf8', 'surrogatepass')).hexdigest()[:8]
        path = os.path.join('evidence', 'replays', '%s-%s.json' % (pid, h))
        with open(os.path.join(HERE, path), 'w') as f:
            json.dump(data, f, indent=1, default=str)
        for n_, o_ in refuted[:10]:
            lines.append('failed obligation %s (%s): counter-model %s' % (o_['name'], o_['backend'], o_['model']))
        if news:
            lines.append('failing input: %s' % c[:1000])
            lines.append('  -> %s' % str(e)[:1000])
            lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        else:
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    if rt_errors:
        lines.append('bounded layer errors: %s' % '; '.join(rt_errors)[:2000])
    wall = time.time() - t0
    nd = sum(o['status'] == 'discharged' for o in obl)
    from pyvc_meta import LEVELS, TRUSTED, RULES, ASSUME
    level = LEVELS[pid]
    cov = dict(
        evaluations=ev, distinct_nontrivial=len(distinct),
        rule=RULES.get(pid, '') + ' Cases whose inputs fall outside the property are skipped and not counted '
        '(%d skipped); distinct by the literal text of the case.' % sk,
        samples=samples[:5],
        obligations=len(obl), discharged=nd,
        checker_cmd='/opt/venv/bin/python check.py %s' % pid,
        trusted_base=TRUSTED,
        functions_under_contract=dict(sorted(functions.items())),
        backends=backends, solver_s=round(solver_time, 3), units=unitinfo,
        undecided=undecided, bounded_stand_in='rt/%s.py: %d evaluations (bounded, not counted as proved)' % (mod, ev))
    if undecided:
        lines.append('undecided by the verifier (left to the bounded layer): %d' % len(undecided))
        for u in undecided[:8]:
            lines.append('  ' + u[:300])
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
                       assumptions=sorted(assumptions | set(ASSUME.get(pid, []))), wall_s=round(wall, 2),
                       violations=1 if rc else 0), f, indent=1, default=str)
    print('%s: %d/%d obligations discharged in %d units; bounded layer: %d evaluations, %d distinct; %.1f s' % (
        pid, nd, len(obl), len(units), ev, len(distinct), wall))
    if rc == 0 and ev == 0 and nd == 0:
        # nothing was explored: no verdict
        for l in lines:
            print(l)
        print('nothing could be explored: no verdict')
        return 2
    for l in lines:
        print(l)
    return rc


def search_more(pid, mod, seed, known):
    """A refuted obligation: longer search of a failing input on the real code."""
    jobs = [(k, rt_job, (mod, seed * 7919 + 31 * k + 17, COUNTS[pid] * 6, 25., k == 0), 60) for k in range(8)]
    res = run_pool(jobs, 8, time.time() + 70)
    out = []
    for k, (st, r) in res.items():
        if st == 'ok':
            out += [(c, e) for c, e in r['fails'] if not any(f.get('case') == c for f in known)]
    return out


def replay(pid, path):
    from rt import base
    import importlib
    with open(path) as f:
        d = json.load(f)
    for o in d.get('failed_obligations', []):
        print('obligation', o['obligation'], o['counter_model'])
    if 'case' not in d:
        print('no failing input in this file')
        return 0
    mod = importlib.import_module('rt.' + pid.lower())
    e = base.run_case(mod, base.dec(d['case']))
    print(d['case'])
    print('->', e)
    return 1 if e else 0


if __name__ == '__main__':
    sys.exit(main())
