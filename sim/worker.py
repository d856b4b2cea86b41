"""One simulation process.

    worker.py run PROP TIER SEED START STRIDE STOP     runs cases, one result per line on fd 3
    worker.py serve PROP                                reads cases, forks for each, writes results
    worker.py hist PROP                                 reads {"seed","tier","seq":[...]} or {"cases":[...]}; one process runs them all
"""
import gc
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

MEM = 4 << 30


def setup():
    proto = os.dup(1)
    sink = os.open(os.devnull, os.O_WRONLY)
    os.dup2(sink, 1)
    os.close(sink)
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.setrecursionlimit(1000)
    return os.fdopen(proto, 'w', buffering=1)


def case_of(mod, seed, i, tier):
    rng = random.Random('%s/%s/%s' % (seed, mod.ID, i))
    return mod.gen(rng, tier, i)


def run_case(mod, case):
    """-> result document"""
    from sim import lib, world
    from sim.biff import InvalidCase
    world.OUT.take(), world.ERR.take()
    try:
        doc = mod.run(case).doc()
        if any('MemoryError' in v[1] for v in doc['v']):
            # perhaps only because of what this process still held: once more
            gc.collect()
            doc = mod.run(case).doc()
        if doc['v'] and hasattr(mod, 'damage') and mod.ID != 'C08' and peak_again(mod, case) > MEM * 6 // 10:
            # a damaged file that claims a huge area: what happens at this process's own limit says nothing
            return {'invalid': 'out of memory'}
        return doc
    except InvalidCase as e:
        return {'invalid': str(e)}
    except lib.OutOfMemory as e:
        lib.drop(e)
        gc.collect()
        return {'invalid': 'out of memory'}
    except Exception as e:
        txt = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1800:]
        if lib.blame(e):
            return {'v': [['exception', 'unexpected %s at %s' % (lib.show(e), lib.where(e))]], 's': None, 'f': {}, 'p': {}, 't': 0, 'n': None,
                    'tb': txt}
        if isinstance(e, MemoryError):
            gc.collect()
            return {'invalid': 'out of memory'}
        return {'error': txt}
    finally:
        world.CUR = None


def peak_again(mod, case):
    """-> the most memory a process of its own needs for the same case"""
    gc.collect()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(60)
            try:
                mod.run(case)
            finally:
                os.write(w, b'%d' % resource.getrusage(resource.RUSAGE_SELF).ru_maxrss)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as g:
        s = g.read()
    os.waitpid(pid, 0)
    return int(s or 0) << 10


def load(prop):
    from sim import lib
    import importlib
    mod = importlib.import_module('sim.props.' + prop.lower())
    lib.load_xlrd()
    if hasattr(mod, 'setup'):
        mod.setup()
    return mod


def main():
    mode, prop = sys.argv[1:3]
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    f = setup()
    mod = load(prop)
    # from here on the clock of the library is simulated; this one is not
    real = __import__('sim.world', fromlist=['x']).REAL['perf_counter']
    if mode == 'run':
        tier, seed, start, stride, stop = sys.argv[3], sys.argv[4], int(sys.argv[5]), int(sys.argv[6]), int(sys.argv[7])
        limit = float(sys.argv[8]) if len(sys.argv) > 8 else 0
        t0 = real()
        for i in range(start, stop, stride):
            f.write('B %d\n' % i)
            try:
                case = case_of(mod, seed, i, tier)
            except Exception:
                f.write(json.dumps({'i': i, 'error': traceback.format_exc()[-1800:]}) + '\n')
                continue
            r = run_case(mod, case)
            r['i'] = i
            f.write(json.dumps(r) + '\n')
            if limit and real() - t0 > limit:
                break
        f.write('END\n')
    elif mode == 'serve':
        f.write('READY\n')
        for line in sys.stdin:
            job = json.loads(line)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                signal.alarm(int(job.get('timeout', 20)))
                d = run_case(mod, job['case'])
                with os.fdopen(w, 'w') as g:
                    g.write(json.dumps(d))
                os._exit(0)
            os.close(w)
            with os.fdopen(r) as g:
                s = g.read()
            _, status = os.waitpid(pid, 0)
            if not s:
                s = json.dumps({'died': 'hang' if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM else 'crash %d' % status})
            f.write(s + '\n')
    elif mode == 'hist':
        job = json.load(sys.stdin)
        last = None
        cases = job.get('cases')
        if cases is None:
            cases = [case_of(mod, job['seed'], i, job['tier']) for i in job['seq']]
        for c in cases:
            signal.alarm(60)
            last = run_case(mod, c)
        signal.alarm(0)
        f.write(json.dumps(last) + '\n')


if __name__ == '__main__':
    main()
