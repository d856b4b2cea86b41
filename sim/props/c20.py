"""C20: reported load times match the clock for every load."""
import sys

from .. import damage, gen as G, lib, monitor, ole, world
from ..lib import Out, h

ID = 'C20'
QUICK, THOROUGH = 8000, 10 ** 7
RULE = ('Workbooks are opened one after the other under a simulated clock: seeded delays on each system call (slow, stalled or instantaneous storage), on loops and calls of '
        'parsing code and on log writes, while the wall clock jumps in either direction. The two reported times are compared with the delays injected in each phase. Some opens are of '
        'damaged files or fail with an I/O error first. Non-trivial: some delay was injected. Distinct: by delays, options and files.')
MEASURE = 'distinct (phases in which delays fell, orders of magnitude of the delays in each, ways of delivery)'
TECHNIQUE = 'deterministic simulation: simulated clock with seeded delays on every I/O and parsing step, reported times compared with the delays injected'
NOTE = ('Seeded search over distributions of delays. A delay while a file is only being inspected may be charged to either side; a delay inside compdoc.py is loading, inside '
        'sheet.py, formatting.py and formula.py is parsing.')
STUBBED = 'all clocks (simulated); file writer (simulated)'

EPS = 1e-6
DISABLE = sys.monitoring.DISABLE


def delays(rng):
    mode = rng.choice(['none', 'even', 'even', 'spiky', 'one', 'huge'])
    n = rng.choice([1, 3, 7, 20])
    if mode == 'none':
        return [0]
    if mode == 'even':
        return [rng.choice([0.001, 0.01, 0.5, 3.0])]
    if mode == 'spiky':
        return [rng.choice([0, 0, 0, 0.01, 2.0, 60.0]) for _ in range(n)]
    if mode == 'one':
        return [0] * rng.randrange(n + 1) + [rng.choice([0.25, 5.0, 1e4])] + [0] * 1000
    return [rng.choice([0.0, 1e5, 1e-5, 1e6]) for _ in range(n)]


def gen(rng, tier, i):
    loads = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        opts = lib.gen_opts(rng)
        if rng.random() < 0.3:
            opts['verbosity'] = rng.choice([1, 2])
        d = {'wb': G.gen_wb(rng, fmt=opts['fmt'], maxcells=rng.choice([2, 6, 15]), far=0.02), 'opts': opts, 'way': rng.choice(['mmap', 'mmap', 'read', 'read', 'bytes', 'mmapobj']),
             'plan': ole.gen_plan(rng, rng.choice([3000, 6000])) if rng.random() < 0.7 else None,
             'io': delays(rng), 'parse': delays(rng), 'load': delays(rng), 'log': delays(rng), 'every': rng.choice([1, 1, 5, 50]),
             'jumps': [rng.choice([0, 0, -3600, 86400, -1e9, 0.5, -0.5]) for _ in range(rng.choice([0, 1, 4]))]}
        if rng.random() < 0.15:
            d['raw'] = damage.gen(rng, 1)
        elif rng.random() < 0.1:
            d['err'] = [rng.randrange(10), rng.choice(['EIO', 'ENOMEM', 'EINTR'])]
        if rng.random() < 0.3:
            d['chop'] = [rng.choice([1, 7, 512, 4096]) for _ in range(rng.randrange(1, 4))]
        loads.append(d)
    return {'loads': loads}


def inspecting():
    f = sys._getframe(2)
    code = lib.xlrd.inspect_format.__code__
    while f is not None:
        if f.f_code is code:
            return True
        f = f.f_back
    return False


class Slow(world.World):
    ns = 1000 * 10 ** 9

    def begin(self, d):
        self.d = d
        self.i = {}
        self.sums = {'io': 0, 'inspect': 0, 'load': 0, 'parse': 0, 'log': 0}

    def delay(self, dt, busy=False):
        world.World.delay(self, dt, busy)
        self.ns += int(dt * 1e9)
        self.now = self.ns / 1e9

    def take(self, key, to, busy):
        l = self.d[key]
        n = self.i.get(key, 0)
        self.i[key] = n + 1
        dt = float(l[n % len(l)])
        if dt:
            self.delay(dt, busy)
            self.sums[to] += int(dt * 1e9)
        return dt

    def event(self, op):
        if self.armed:
            self.take('io', 'inspect' if inspecting() else 'io', False)
        world.World.event(self, op)

    def wallclock(self):
        j = self.d['jumps']
        if j:
            self.wall += j[self.clock_reads % len(j)]
        return world.World.wallclock(self)


class SlowLog(lib.Log):
    def write(self, s):
        self.w.take('log', 'log', False)
        return lib.Log.write(self, s)


PHASE = {'compdoc.py': 'load', 'sheet.py': 'parse', 'formatting.py': 'parse', 'formula.py': 'parse'}


def run(case):
    out = Out()
    seen = set()
    some = False
    with Slow() as w:
        w.armed = False
        for k, d in enumerate(case['loads']):
            lib.req(all(d[key] for key in ('io', 'parse', 'load', 'log')) and d['every'] >= 1)
            stream, info, exp = lib.model_of(d)
            data, im = lib.image_of(d, stream)
            if d.get('raw'):
                data = damage.apply(data, d['raw'])
                if not data:
                    continue
            w.begin(d)
            w.chop = d.get('chop') or []
            w.plan = [{'op': 'any', 'n': w.total + d['err'][0], 'err': d['err'][1]}] if d.get('err') else []
            name = 'b%d.xls' % k
            p = w.put(name, data)
            log = SlowLog()
            log.w = w
            phase = {}
            n = [0]

            def line(code, x):
                ph = phase.get(code)
                if ph is None:
                    ph = phase[code] = PHASE.get(code.co_filename.rsplit('/', 1)[-1], '')
                if ph:
                    n[0] += 1
                    if n[0] % d['every'] == 0:
                        w.take(ph, ph, True)
                else:
                    return DISABLE
            w.armed = True
            t0 = w.now
            bk = None
            try:
                with monitor.Watch('step', line):
                    bk = lib.open_book(w, data, d['opts'], d['way'], path=p, log=log)
            except Exception as e:
                lib.guard(e)
                if not d.get('raw') and not w.errors:
                    raise
                out.probe('failed load')
            total = w.now - t0
            w.armed = False
            s = {key: v / 1e9 for key, v in w.sums.items()}
            some = some or total > 0
            out.calls += 1
            for key, v in s.items():
                if v:
                    out.fault('delay: ' + key)
            del w.errors[:]
            if bk is None:
                continue
            a, b = bk.load_time_stage_1, bk.load_time_stage_2
            eps = EPS + w.now * 1e-14
            ctx = 'load %d: stages %r + %r, the call took %r, delays %r' % (k, a, b, total, s)
            if not isinstance(a, (int, float)) or not isinstance(b, (int, float)) or a != a or b != b:
                out.bad('not-a-time', ctx)
            elif a < -eps or b < -eps:
                out.bad('negative', ctx)
            elif a + b > total + eps:
                out.bad('too-much', ctx)
            elif a + b < s['io'] + s['load'] + s['parse'] + s['log'] - eps:
                out.bad('too-little', ctx)
            elif a < s['io'] + s['load'] - eps or a > s['io'] + s['load'] + s['inspect'] + s['log'] + eps:
                out.bad('stage-1', ctx)
            elif b < s['parse'] - eps or b > s['parse'] + s['log'] + eps:
                out.bad('stage-2', ctx)
            seen.add('%s %s %s' % (d['way'], d['opts'].get('od'), ' '.join('%s%d' % (q, len('%d' % v)) for q, v in sorted(s.items()) if v)))
            # later loads on demand do not change what was reported
            if d['opts'].get('od') and not d.get('raw'):
                for j in range(bk.nsheets):
                    bk.sheet_by_index(j)
            if (bk.load_time_stage_1, bk.load_time_stage_2) != (a, b):
                out.bad('changed', ctx + ': changed later to %r + %r' % (bk.load_time_stage_1, bk.load_time_stage_2))
            bk.release_resources()
        out.world(w)
        out.fault('wall clock jump', sum(1 for d in case['loads'] for j in d['jumps'] if j))
    if some:
        out.sig = h([(d['io'][:20], d['parse'][:20], d['load'][:20], d['log'][:20], d['every'], d['opts'], d['wb'], d['way']) for d in case['loads']])
        out.inter = sorted(seen)
    return out
