"""Runs a check: fans the cases of one property out over processes, confirms, minimises and records a
violation, writes the evidence."""
import importlib
import json
import os
import selectors
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
WORKER = os.path.join(VERIF, 'sim', 'worker.py')


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', TZ='UTC')
    return e


def spawn(args, **kw):
    return subprocess.Popen([PY, '-B', WORKER] + [str(a) for a in args], stdout=subprocess.PIPE, stdin=kw.pop('stdin', subprocess.DEVNULL),
                            stderr=subprocess.DEVNULL if not os.environ.get('XLRDSIM_DEBUG') else None, cwd=VERIF, env=env(),
                            start_new_session=True, **kw)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.wait(10)
    except subprocess.TimeoutExpired:
        pass


class Server(object):
    """Runs single cases, each in a process forked from a fresh one."""

    def __init__(self, prop):
        self.prop, self.p = prop, None

    def start(self):
        self.p = spawn(['serve', self.prop], stdin=subprocess.PIPE)
        assert self.p.stdout.readline() == b'READY\n'

    def run(self, case, timeout=20):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write((json.dumps({'case': case, 'timeout': timeout}) + '\n').encode())
            self.p.stdin.flush()
            s = self.p.stdout.readline()
            return json.loads(s)
        except (OSError, ValueError):
            kill(self.p)
            self.p = None
            return {'died': 'server'}

    def stop(self):
        if self.p is not None:
            kill(self.p)
            self.p = None


def hist(prop, job, timeout=400):
    p = spawn(['hist', prop], stdin=subprocess.PIPE)
    try:
        o, _ = p.communicate(json.dumps(job).encode(), timeout=timeout)
        return json.loads(o)
    except subprocess.TimeoutExpired:
        kill(p)
        return {'toolong': True}
    except ValueError:
        return {'died': 'hang' if p.returncode == -signal.SIGALRM else 'crash %s' % p.returncode}


def kinds(r):
    if 'died' in r:
        return ['died:' + r['died'].split()[0]]
    return [k for k, _ in r.get('v') or ()]


def text_of(r):
    if 'died' in r:
        return 'the process %s while running the case' % ('did not finish' if r['died'] == 'hang' else 'died')
    return '; '.join('%s: %s' % (k, t) for k, t in r['v'])


RETRY = 'a case seemed to hang, but neither it nor its history does when run again'


def explore(prop, tier, seed, total, workers, time_limit, case_timeout):
    """-> list of results, list of (index, result) violations, history per worker"""
    sel = selectors.DefaultSelector()
    procs = {}
    results, bad, errors = {}, [], []
    hists = {}
    for k in range(workers):
        p = spawn(['run', prop, tier, seed, k, workers, total, time_limit or 0])
        os.set_blocking(p.stdout.fileno(), False)
        st = {'p': p, 'buf': b'', 'cur': None, 'quiet': 0.0, 'k': k, 'end': False}
        procs[k] = st
        hists[k] = []
        sel.register(p.stdout, selectors.EVENT_READ, st)
    live = set(procs)
    stop = False
    tick = time.time()
    while live and not stop:
        # time as this loop saw it pass: a sandbox that was paused for a minute has not hung for a minute
        now = time.time()
        dt = min(2.0, max(0.0, now - tick))
        tick = now
        for st in procs.values():
            st['quiet'] += dt
        for key, _ in sel.select(timeout=1.0):
            st = key.data
            try:
                s = os.read(st['p'].stdout.fileno(), 1 << 20)
            except BlockingIOError:
                continue
            if not s:
                sel.unregister(st['p'].stdout)
                live.discard(st['k'])
                st['p'].wait()
                if not st['end']:
                    if st['cur'] is None:
                        errors.append('worker %d died before its first case (exit %s)' % (st['k'], st['p'].returncode))
                        stop = True
                    else:
                        bad.append((st['cur'], {'died': 'crash %s' % st['p'].returncode}, st['k']))
                        stop = True
                continue
            st['buf'] += s
            lines = st['buf'].split(b'\n')
            st['buf'] = lines.pop()
            for ln in lines:
                st['quiet'] = 0.0
                if ln.startswith(b'B '):
                    st['cur'] = int(ln[2:])
                    hists[st['k']].append(st['cur'])
                elif ln == b'END':
                    st['end'] = True
                else:
                    r = json.loads(ln)
                    results[r['i']] = r
                    if 'error' in r:
                        errors.append('case %d: %s' % (r['i'], r['error']))
                        if len(errors) > 3:
                            stop = True
                    elif r.get('v'):
                        bad.append((r['i'], r, st['k']))
                        stop = True
        for k in list(live):
            st = procs[k]
            if st['quiet'] > case_timeout:
                if st['cur'] is None:
                    errors.append('worker %d did not start' % k)
                else:
                    bad.append((st['cur'], {'died': 'hang'}, k))
                stop = True
    for st in procs.values():
        kill(st['p'])
    bad.sort(key=lambda b: b[0])
    return results, bad, errors, hists


def confirm(mod, prop, tier, seed, i, r, k, hists, workers):
    """Replay the failing case alone in a fresh process, minimise it; or, if it needs what ran before it in the
    same process, replay and minimise that history."""
    from sim import shrink, worker
    srv = Server(prop)
    t0 = time.time()
    try:
        case = worker.case_of(mod, seed, i, tier)
        want = kinds(r)
        r1 = srv.run(case, timeout=100)
        got = kinds(r1)
        if got:
            r2 = srv.run(case, timeout=100)
            if kinds(r2) != got:
                return None, 'case %d does not replay the same way twice: %r, then %r' % (i, got, kinds(r2))
            want = got[0]
            slow = 'died:hang' in got
            n = [0]

            def test(c):
                n[0] += 1
                x = srv.run(c, timeout=10)
                return want in kinds(x)

            def budget():
                return time.time() - t0 < (60 if slow else 90) and n[0] < 1500
            best = shrink.shrink(case, test, budget) if not slow else case
            rb = srv.run(best, timeout=100)
            if want not in kinds(rb):
                best, rb = case, r1
            return {'mode': 'case', 'case': best, 'kind': want, 'text': text_of(rb), 'full_case_index': i, 'shrink_runs': n[0]}, None
        # needs history
        seq = [x for x in hists[k] if x <= i]
        job = {'seed': seed, 'tier': tier}
        rh = hist(prop, dict(job, seq=seq))
        if rh.get('toolong') and len(seq) > 1500:
            seq = seq[-1500:]
            rh = hist(prop, dict(job, seq=seq))
        if not kinds(rh):
            if want == ['died:hang']:
                return None, RETRY
            return None, 'case %d failed (%s) but neither it nor its history replays' % (i, text_of(r))
        want = kinds(rh)[0]
        pre = seq[:-1]
        n = len(pre)
        chunk = max(1, n // 2)
        while chunk >= 1 and time.time() - t0 < 150:
            j = 0
            while j < len(pre) and time.time() - t0 < 150:
                cand = pre[:j] + pre[j + chunk:]
                if want in kinds(hist(prop, dict(job, seq=cand + [i]))):
                    pre = cand
                else:
                    j += chunk
            if chunk == 1:
                break
            chunk //= 2
        cases = [worker.case_of(mod, seed, x, tier) for x in pre + [i]]
        rb = hist(prop, {'cases': cases})
        if want not in kinds(rb):
            return None, 'case %d: its history does not replay from the written cases' % i
        return {'mode': 'history', 'cases': cases, 'kind': want, 'text': text_of(rb), 'indices': pre + [i]}, None
    finally:
        srv.stop()


def known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def main(prop, tier, seed, runs=None, workers=None, quiet=False):
    sys.path.insert(0, VERIF)
    t0 = time.time()
    mod = importlib.import_module('sim.props.' + prop.lower())
    workers = workers or int(os.environ.get('XLRDSIM_WORKERS', min(8, os.cpu_count() or 1)))
    total = runs or (mod.QUICK if tier == 'quick' else mod.THOROUGH)
    limit = None if tier == 'quick' else float(os.environ.get('XLRDSIM_SECONDS', getattr(mod, 'SECONDS', 700)))
    total = int(total)
    for attempt in (0, 1):
        t1 = time.time()
        results, bad, errors, hists = explore(prop, tier, seed, total, workers, limit, getattr(mod, 'CASE_TIMEOUT', 60))
        t_explore = time.time() - t1
        confirmed = [(i,) + confirm(mod, prop, tier, seed, i, r, k, hists, workers) for i, r, k in bad[:1]]
        if not (confirmed and confirmed[0][2] == RETRY and attempt == 0):
            break
    if confirmed and confirmed[0][1] is None:
        confirmed += [(i,) + confirm(mod, prop, tier, seed, i, r, k, hists, workers) for i, r, k in bad[1:3]]
    code, viols = 0, 0
    lines = []
    if errors:
        code = 2
        lines += ['HARNESS ERROR: ' + e for e in errors[:3]]
    for i, rep, problem in confirmed:
        if rep is None:
            code = max(code, 2)
            lines.append('HARNESS ERROR: ' + problem)
            continue
        hit = [f for f in known(prop) if f.get('status') == 'finding' and f['match'] in rep['text']]
        if hit:
            continue
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d.json' % (prop, seed, i))
        rep.update(property=prop, seed=seed, tier=tier, index=i)
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1)
        viols += 1
        lines.append('%s (seed %s, run %d): %s' % (prop, seed, i, rep['text'][:1200]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
        break
    # a run that was cut short by a hang or by an error never counts as having held
    agg = aggregate(results)
    if code == 0 and agg['invalid'] > 0.05 * max(1, len(results)):
        code = 2
        lines.append('HARNESS ERROR: %d of %d generated cases were invalid' % (agg['invalid'], len(results)))
    if code == 0 and len(results) < (total if tier == 'quick' else min(total, 10)):
        code = 2
        lines.append('HARNESS ERROR: only %d of %d runs finished' % (len(results), total))
    for f in known(prop):
        if f.get('status') == 'finding':
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, f['text']))
    evidence(mod, prop, tier, seed, results, agg, t_explore, time.time() - t0, viols, workers)
    if not quiet:
        lines.append('%s %s seed=%s: %d runs, %d distinct non-trivial, digest %s, %.1f s' % (
            prop, tier, seed, len(results), agg['distinct'], agg['digest'], time.time() - t0))
    print('\n'.join(lines))
    return code


def aggregate(results):
    import hashlib
    sigs, inters, faults, probes = set(), set(), {}, {}
    sim = 0.0
    invalid = calls = 0
    hsh = hashlib.sha1()
    for i in sorted(results):
        r = results[i]
        hsh.update(json.dumps(r, sort_keys=True).encode())
        if 'invalid' in r:
            invalid += 1
            continue
        if 'error' in r:
            continue
        if r.get('s') is not None:
            sigs.add(r['s'])
        if r.get('n') is not None:
            inters.update(r['n'] if isinstance(r['n'], list) else [r['n']])
        for k, v in r['f'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r['p'].items():
            probes[k] = probes.get(k, 0) + v
        sim += r['t']
        calls += r.get('c', 0)
    return {'distinct': len(sigs), 'inter': len(inters), 'faults': faults, 'probes': probes, 'sim': sim, 'invalid': invalid,
            'digest': hsh.hexdigest()[:16], 'calls': calls}


def evidence(mod, prop, tier, seed, results, agg, wall, total_wall, viols, workers):
    from sim import worker
    samples = []
    for i in sorted(results)[:400]:
        if results[i].get('s') is not None:
            s = json.dumps(worker.case_of(mod, seed, i, tier))
            if len(s) < 6000 or not samples:
                samples.append({'run': i, 'case': json.loads(s) if len(s) < 6000 else s[:3000] + '...', 'signature': results[i]['s'],
                                'faults': results[i]['f'], 'probes': results[i]['p']})
            if len(samples) >= 2:
                break
    n = len(results)
    doc = {
        'property': prop, 'tier': tier, 'seed': int(seed), 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': n, 'distinct_nontrivial': agg['distinct'], 'rule': mod.RULE, 'samples': samples,
            'runs_per_hour': int(n / wall * 3600) if wall else 0, 'seeds': n, 'workers': workers,
            'simulated_seconds': round(agg['sim'], 3),
            'faults_injected': dict(sorted(agg['faults'].items())),
            'rare_conditions_reached': dict(sorted(agg['probes'].items())),
            'distinct_states_or_interleavings': {'count': agg['inter'], 'measure': getattr(mod, 'MEASURE', 'not measured separately')},
            'library_calls': agg['calls'], 'invalid_cases': agg['invalid'], 'event_digest': agg['digest'],
            'real_code': getattr(mod, "REAL_CODE", "all of /repo/xlrd as imported from the working tree") + "; CPython 3.12 zipfile, mmap, io and struct; the kernel file system (scratch files)",
            'stubbed': getattr(mod, 'STUBBED', 'file writer (simulated), system-call failures, short reads, clocks, locks, stdout/stderr'),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'the simulated writer packs records as the OpenOffice.org and Microsoft documentation of the format describes',
            'a clean batch of sampled runs is evidence, not proof'],
        'wall_s': round(total_wall, 2), 'violations': viols,
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    prop = rep['property']
    if rep['mode'] == 'case':
        srv = Server(prop)
        try:
            r = srv.run(rep['case'], timeout=200)
        finally:
            srv.stop()
    else:
        r = hist(prop, {'cases': rep['cases']})
    ks = kinds(r)
    if ks:
        print('%s: %s' % (prop, text_of(r)))
        if rep['kind'] in ks:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
    if 'error' in r:
        print('HARNESS ERROR: ' + r['error'])
        return 2
    print('%s: the recorded violation (%s) does not occur on this tree' % (prop, rep['kind']))
    return 0
