"""C19: results depend only on the file and the options, not on the process."""
import base64
import json
import os
import subprocess
import sys

from .. import damage, gen as G, lib, observe, ole
from ..lib import Out, h

ID = 'C19'
QUICK, THOROUGH = 4000, 10 ** 7
CASE_TIMEOUT = 100
RULE = ('One workbook is opened with the same options in several fresh processes that differ in string-hash seed, locale, time zone, current directory, wall clock, '
        'optimisation level, allocator and heap contents, garbage-collector settings and thread, and in what they opened before: other workbooks, whole, partly loaded, '
        'damaged, interrupted, kept or dropped. Every observation, order included, must equal the baseline and the reference model. Non-trivial: at least two processes '
        'compared. Distinct: by workbook, options, environments and histories.')
MEASURE = 'distinct (set of environments, shape of the preceding histories)'
TECHNIQUE = 'deterministic simulation: one workbook read by simulated deployments differing in process environment and history, observations compared in order'
NOTE = ('Seeded search over workbooks, histories of up to 4 opens and 6 fixed environments of CPython 3.12. Locales are those installed (C, POSIX, C.UTF-8).')
STUBBED = 'file writer (simulated); time.* clocks (simulated); datetime is real'

# every environment is fixed, so that a run can be repeated
ENVS = [
    {'env': {'PYTHONHASHSEED': '0', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC'}},
    {'env': {'PYTHONHASHSEED': '1', 'LC_ALL': 'C', 'TZ': 'NPT-5:45', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'LANG': 'C', 'HOME': '/nonexistent', 'USER': 'nobody'},
     'cwd': '/', 'wall': 0.0, 'junk': 3000, 'locale': 1},
    {'env': {'PYTHONHASHSEED': '12345', 'LC_ALL': 'C.UTF-8', 'TZ': 'EST5EDT', 'PYTHONMALLOC': 'malloc', 'PYTHONUTF8': '1'}, 'flags': ['-O'], 'wall': 4e9, 'now': 1e9, 'cwd': '/dev',
     'gc': 'off'},
    {'env': {'PYTHONHASHSEED': '999', 'LC_ALL': 'POSIX', 'TZ': 'XXX+12', 'PYTHONIOENCODING': 'ascii', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, 'flags': ['-OO'],
     'wall': 1e9, 'gc': [3, 2, 2], 'junk': 500},
    {'env': {'PYTHONHASHSEED': '4242', 'LC_ALL': 'C.UTF-8', 'LC_NUMERIC': 'C', 'TZ': 'AAA-14', 'PYTHONMALLOC': 'debug', 'LANGUAGE': 'tr'}, 'thread': 1, 'wall': 2.0 ** 31, 'cwd': '/usr'},
    {'env': {'PYTHONHASHSEED': '4294967295', 'LC_ALL': 'C', 'TZ': 'UTC'}, 'flags': ['-s'], 'junk': 20000, 'now': 0.0, 'wall': -1e6, 'thread': 1, 'locale': 1},
]
PROCS = {}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SERIAL = [0]


def proc(k):
    p = PROCS.get(k)
    if p is None or p.poll() is not None:
        spec = ENVS[k]
        env = {'PATH': os.environ.get('PATH', '/usr/bin'), 'PYTHONDONTWRITEBYTECODE': '1', 'XLRDSIM_REPO': lib.REPO}
        env.update(spec['env'])
        flags = list(spec.get('flags') or ())
        p = subprocess.Popen([sys.executable, '-B'] + flags + [os.path.join(HERE, 'child.py'), json.dumps({k: v for k, v in spec.items() if k != 'env'})],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        if p.stdout.readline() != b'READY\n':
            raise RuntimeError('environment %d does not start' % k)
        PROCS[k] = p
    return p


def ask(k, job):
    p = proc(k)
    SERIAL[0] += 1
    job = dict(job, id='%d-%d' % (os.getpid(), SERIAL[0]))
    p.stdin.write((json.dumps(job) + '\n').encode())
    p.stdin.flush()
    while True:
        s = p.stdout.readline()
        if not s:
            PROCS.pop(k, None)
            raise RuntimeError('environment %d died' % k)
        d = json.loads(s)
        if d['id'] == job['id']:
            break
    if 'error' in d:
        raise RuntimeError(d['error'])
    return d


def setup():
    for k in range(len(ENVS)):
        proc(k)


def gen(rng, tier, i):
    def a_file(small):
        opts = lib.gen_opts(rng)
        if rng.random() < 0.2:
            opts['verbosity'] = rng.choice([1, 2, 3])
        return {'wb': G.gen_wb(rng, fmt=opts['fmt'], maxcells=3 if small else rng.choice([3, 10, 25]), notes=None, names=rng.random() < 0.4), 'opts': opts,
                'plan': ole.gen_plan(rng, rng.choice([3000, 6000])) if rng.random() < 0.4 else None, 'way': rng.choice(['bytes', 'mmap', 'read'])}
    c = a_file(False)
    c['pool'] = [a_file(True) for _ in range(rng.choice([1, 2]))]
    for d in c['pool']:
        if rng.random() < 0.3:
            d['raw'] = damage.gen(rng)
        elif rng.random() < 0.2:
            d['rec'] = damage.gen_rec(rng)
    runs = []
    for k in rng.sample(range(len(ENVS)), 2):
        prior = []
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            q = {'f': rng.choice([0, 0, 1, -1])}           # -1: the same workbook
            for key in ('load', 'keep', 'close'):
                if rng.random() < 0.5:
                    q[key] = 1
            if rng.random() < 0.3:
                q['cut'] = rng.choice([1, 5, 50, 200, 500, 1000, 2000, rng.randrange(1, 4000)])
            if rng.random() < 0.4:
                q['opts'] = lib.gen_opts(rng)
            prior.append(q)
        runs.append({'env': k, 'prior': prior})
    c['runs'] = runs
    return c


def run(case):
    out = Out()
    stream, info, exp = lib.model_of(case)
    data, im = lib.image_of(case, stream)
    files = []
    for d in case['pool']:
        s, _ = lib.biff.build(d['wb'])
        if d.get('rec'):
            s = damage.apply_rec(s, d['rec'])
        x, _ = lib.image_of(d, s)
        if d.get('raw'):
            x = damage.apply(x, d['raw'])
        files.append((base64.b64encode(x).decode(), d['opts'], d['way']))
    tgt = (base64.b64encode(data).decode(), case['opts'], case['way'])
    target = {'data': tgt[0], 'opts': tgt[1], 'way': tgt[2]}
    fmt = bool(case['opts'].get('fmt'))
    jobs = [(0, {'prior': [], 'target': target, 'full': 1})]
    for r in case['runs']:
        prior = []
        for q in r['prior']:
            f = tgt if q['f'] < 0 or not files else files[q['f'] % len(files)]
            if not f[0]:
                continue
            prior.append({'data': f[0], 'opts': dict(f[1], **(q.get('opts') or {})), 'way': f[2], 'cut': q.get('cut'), 'load': q.get('load'), 'keep': q.get('keep'),
                          'close': q.get('close')})
        jobs.append((r['env'] % len(ENVS), {'prior': prior, 'target': target}))
    got = []
    asked, jobs = jobs, []
    for k, j in asked:
        d = ask(k, j)
        if d.get('skip'):
            out.probe('left out: the preceding opens used up the memory')
            continue
        out.calls += 1 + len(j['prior'])
        got.append(d)
        jobs.append((k, j))
        if d.get('exc'):
            out.bad('exception', 'environment %d: %s' % (k, d['exc']))
        elif d.get('died'):
            out.bad('died', 'environment %d: the process died' % k)
    if not out.viol and len(set(d['digest'] for d in got)) > 1:
        ref = got[0]['snap']
        for (k, j), d in zip(jobs, got):
            if d['digest'] != got[0]['digest']:
                x = ask(k, dict(j, full=1))['snap']
                df = observe.diff(ref, x)
                out.bad('differs', 'environment %d, %d opens before: %s' % (k, len(j['prior']), '; '.join(df[:4]) or 'the order of a mapping differs: ' + order(ref, x)))
    elif not out.viol:
        out.diffs('wrong-result', observe.against(exp, got[0]['snap']))
    for k, j in jobs[1:]:
        out.probe('environment %d' % k)
        for p in j['prior']:
            out.fault('preceding open' + (' interrupted' if p['cut'] else ''))
    if len(jobs) > 1:
        out.sig = h(stream.hex(), case['opts'], case['runs'], [f[1] for f in files])
        out.inter = h(sorted(k for k, j in jobs), [[(bool(p['cut']), p['load'], p['keep'], p['close']) for p in j['prior']] for k, j in jobs])
    return out


def order(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return '%s: %s, expected %s' % (path, observe.short(list(b)), observe.short(list(a)))
        for k in a:
            s = order(a[k], b[k], path + '.' + k)
            if s:
                return s
    elif isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            s = order(x, y, '%s[%d]' % (path, i))
            if s:
                return s
    return ''
