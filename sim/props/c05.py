"""C05: a failing system call surfaces as itself and never yields a partial Book."""
from .. import gen as G, lib, monitor, observe, ole, world
from ..lib import Out, h

ID = 'C05'
QUICK, THOROUGH = 9000, 10 ** 7
RULE = ('A file is opened (or inspected) once without faults to learn its system calls; then again with a seeded one of them failing with a seeded error '
        '(and sometimes a second one later), or with an allocation failing at a seeded line of library code. The caller must get exactly that failure, or the '
        'complete correct Book; then the call is repeated without faults and must succeed. Non-trivial: a fault fired. Distinct: by call, fault position and kind, '
        'file and options.')
MEASURE = 'distinct (system call or line reached, error injected, route, outcome)'
TECHNIQUE = 'deterministic simulation with fault injection: seeded failures of every system call and allocation of the open path'
NOTE = ('Seeded search over (system call, error) pairs and allocation failures placed at any line of library code; the outcome must be the very exception that was '
        'injected or the whole correct result. Page-in errors of a mapping (SIGBUS) cannot be raised as exceptions and are not simulated.')
ERRS = ['EIO', 'EIO', 'ENOENT', 'EACCES', 'EMFILE', 'ENOMEM', 'ESTALE', 'ENODEV', 'EBADF', 'EINVAL', 'EAGAIN', 'ETIMEDOUT', 'EPERM', 'MemoryError', 'EINTR']


def gen(rng, tier, i):
    fmt = int(rng.random() < 0.4)
    wb = G.gen_wb(rng, fmt=fmt, maxcells=rng.choice([3, 10, 25]))
    c = {'wb': wb, 'opts': lib.gen_opts(rng, fmt=fmt), 'plan': ole.gen_plan(rng, 3000) if rng.random() < 0.6 else None,
         'way': rng.choice(['mmap', 'read']), 'fn': 'inspect' if rng.random() < 0.08 else 'open'}
    if rng.random() < 0.3:
        c['chop'] = [rng.choice([0, 1, 7, 100, 512, 1000]) for _ in range(rng.randrange(1, 4))]
    if rng.random() < 0.25:
        c['line'] = [rng.random(), rng.choice(['MemoryError', 'MemoryError', 'EIO'])]
    else:
        if c['way'] == 'mmap' and rng.random() < 0.08:
            c['map'] = rng.choice(['ValueError', 'ValueError', 'OverflowError', 'BufferError'])        # the file has shrunk meanwhile
        c['faults'] = [[rng.random(), rng.choice(ERRS)] for _ in range(rng.choice([1, 1, 1, 2]))]
    return c


def run(case):
    out = Out()
    stream, info, exp = lib.model_of(case)
    data, im = lib.image_of(case, stream)
    fmt = bool(case['opts'].get('fmt'))
    x = lib.xlrd

    def act(w, path):
        if case['fn'] == 'inspect':
            return x.inspect_format(path)
        return lib.open_book(w, data, case['opts'], case['way'], path=path)

    def judge(got, ctx):
        if case['fn'] == 'inspect':
            want = 'xls' if case.get('plan') is not None else None
            if got != want:
                out.bad('wrong-result', '%s: inspect_format returned %r' % (ctx, got))
            return
        try:
            out.diffs('wrong-result', observe.against(exp, observe.snapshot(got, fmt)), ctx)
        except Exception as e:
            lib.guard(e)
            out.bad('wrong-result', '%s: using the Book raised %s at %s' % (ctx, lib.show(e), lib.where(e)))
        got.release_resources()

    with world.World(chop=case.get('chop')) as w:
        p = w.put('b.xls', data)
        with monitor.Lines() as ln:
            try:
                got = act(w, p)
            except Exception as e:
                lib.guard(e)
                out.bad('refused', 'without faults: %s at %s' % (lib.show(e), lib.where(e)))
                return out
        total, nlines = w.total, ln.n
        w.armed = False
        judge(got, 'without faults')
    plan = []
    for frac, err in case.get('faults') or ():
        n = int(frac * total)
        plan.append({'op': 'any', 'n': n, 'err': err})
    if case.get('map') and case['way'] == 'mmap':
        plan = [{'op': 'mmap', 'n': 0, 'err': case['map']}]
    with world.World(plan=plan, chop=case.get('chop')) as w:
        p = w.put('b.xls', data)
        exc = world.make_error(case['line'][1]) if case.get('line') else None
        ctx = ''
        got = raised = None
        k = 1 + int(case['line'][0] * nlines) if case.get('line') else None
        with monitor.Lines(k, exc) as ln:
            try:
                got = act(w, p)
            except BaseException as e:
                raised = e
        out.calls += 1
        inj = [exc] if case.get('line') and ln.n >= k else []
        inj += w.errors
        out.world(w)
        if case.get('line') and inj:
            out.fault('allocation or call failing inside the library: ' + case['line'][1])
        if raised is not None and not any(raised is e for e in inj):
            lib.guard(raised)
            if not inj:
                out.bad('refused', 'no injected fault, but %s at %s' % (lib.show(raised), lib.where(raised)))
            else:
                out.bad('masked', 'injected %s surfaced as %s at %s' % (', '.join(lib.show(e) for e in inj), lib.show(raised), lib.where(raised)))
        w.plan = []
        w.armed = False
        if got is not None or (raised is None):
            judge(got, 'after %s' % (', '.join(lib.show(e) for e in inj) or 'no fault'))
        if inj:
            out.sig = h(case['fn'], case.get('way'), k or [(f['n'], f['err']) for f in plan], case['opts'], lib.h(stream.hex()))
            out.inter = h(case['fn'], case.get('way'), ln.where or [(w.log[f['n']] if f['n'] < len(w.log) else '-', f['err']) for f in plan], raised is None)
        raised = None
        # once the fault has gone
        w.armed = True
        try:
            got = act(w, p)
        except Exception as e:
            lib.guard(e)
            out.bad('retry', 'the retry raised %s at %s' % (lib.show(e), lib.where(e)))
            return out
        w.armed = False
        judge(got, 'retry')
    return out
