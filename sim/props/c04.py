"""C04: how the bytes are delivered never changes the result."""
from .. import damage, gen as G, lib, monitor, observe, ole, world
from ..lib import Out, h

ID = 'C04'
QUICK, THOROUGH = 6000, 10 ** 7
RULE = ('One file image, intact or damaged, is opened two or three times through different routes (mapped, read, bytes, mmap object, bytes-like object, '
        'bytearray) with the simulated kernel chopping and interrupting the reads by seed, eager or on demand; all outcomes must be identical, and those of '
        'an intact file equal to the reference model. Non-trivial: at least two routes were compared. Distinct: by image, routes, and read sizes.')
MEASURE = 'distinct (routes, read-size sequence, outcome class) combinations'
TECHNIQUE = 'deterministic simulation: seeded read schedules (short and interrupted reads) over every delivery route, cross-compared'
NOTE = ('Seeded search over routes, read sizes and images, differential between routes and against the reference model. '
        'A bytes-like object is an object with length and slices that are bytes.')


def gen(rng, tier, i):
    opts = lib.gen_opts(rng, od=False)
    wb = G.gen_wb(rng, fmt=opts['fmt'], maxcells=rng.choice([3, 12, 30]))
    c = {'wb': wb, 'opts': opts, 'plan': ole.gen_plan(rng, rng.choice([2000, 4096, 6000])) if rng.random() < 0.7 else None}
    ways = [w for w in lib.WAYS]
    rng.shuffle(ways)
    c['ways'] = ways[:rng.choice([2, 3])]
    c['od'] = [int(rng.random() < 0.3) for _ in c['ways']]
    c['chops'] = [[rng.choice([0, 1, 2, 3, 5, 8, 9, 100, 512, 513, 4095, 8192]) for _ in range(rng.randrange(1, 5))] if rng.random() < 0.6 else [] for _ in c['ways']]
    c['eintr'] = [[[rng.choice(['read', 'open', 'read', 'seek']), rng.randrange(4)] for _ in range(rng.choice([0, 0, 1, 2]))] for _ in c['ways']]
    m = rng.random()
    if m < 0.12:
        c['damage'] = damage.gen(rng)
    elif m < 0.24:
        c['rdamage'] = damage.gen_rec(rng)
    elif m < 0.28:
        c['raw'] = rng.choice(['', '50', 'd0cf11e0', 'd0cf11e0a1b11ae1', '504b0304', '504b03', '0908', '09081000', '3c68746d6c3e', '00' * 40])
    elif m < 0.3:
        c['pad'] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 511, 512]))).hex()
    return c


def kind_of(*a, **k):
    try:
        return lib.xlrd.inspect_format(*a, **k)
    except Exception as e:
        lib.guard(e)
        return '%s: %s' % (type(e).__name__, e)


def outcome(w, data, opts, way, od):
    """-> (class, observation)"""
    o = dict(opts)
    if od:
        o['od'] = 1
    try:
        with monitor.Budget(3000000 + 400 * len(data)):
            bk = lib.open_book(w, data, o, way)
    except Exception as e:
        lib.guard(e)
        return 'raised', [type(e).__name__, str(e)]
    except monitor.BudgetExceeded:
        return 'long', None
    fmt = bool(opts.get('fmt'))
    try:
        if od:
            with monitor.Budget(3000000 + 400 * len(data)):
                got = observe.snapshot(bk, fmt)
            bk.release_resources()
        else:
            got = observe.snapshot(bk, fmt)
    except Exception as e:
        lib.guard(e)
        bk.release_resources()
        return 'raised', [type(e).__name__, str(e)]
    except monitor.BudgetExceeded:
        return 'long', None
    return 'ok', got


def run(case):
    out = Out()
    stream, info, exp = lib.model_of(case)
    bad = bool(case.get('damage') or case.get('rdamage') or 'raw' in case)
    if case.get('rdamage'):
        stream = damage.apply_rec(stream, case['rdamage'])
    data, _ = lib.image_of(case, stream)
    if case.get('damage'):
        data = damage.apply(data, case['damage'])
    if 'raw' in case:
        data = bytes.fromhex(case['raw'])
    if case.get('pad') and case.get('plan') is not None:
        data += bytes.fromhex(case['pad'])
    lib.req(len(case['ways']) == len(case['od']) == len(case['chops']) == len(case['eintr']))
    first = None
    sigs = []
    kinds = []
    for way, od, chop, eintr in zip(case['ways'], case['od'], case['chops'], case['eintr']):
        if not data and way in ('mmapobj',):
            continue
        if not data and way not in ('mmap', 'read'):
            continue
        if bad and way == 'bytearray':
            way = 'bytes'
        if bad:
            od = 0
        with world.World(plan=[{'op': op, 'n': n, 'err': 'EINTR'} for op, n in eintr], chop=chop) as w:
            res, got = outcome(w, data, case['opts'], way, od)
            out.calls += 1
            kinds.append([kind_of(content=data) if data else None, kind_of(w.put('i', data))])
            out.world(w)
        name = '%s%s' % (way, ' on demand' if od else '')
        if kinds[-1][0] != kinds[-1][1] and data:
            out.bad('inspect', 'inspect_format: content %r, path %r' % tuple(kinds[-1]))
        if res == 'long':
            continue
        out.probe('route ' + name)
        if not bad:
            if res == 'raised':
                out.bad('refused', '%s: raised %r' % (name, got))
            else:
                out.diffs('wrong-result', observe.against(exp, got), name)
        if first is None:
            first = (name, res, got)
        else:
            sigs.append([name, chop, eintr])
            if res != first[1]:
                out.bad('route', '%s: %s, %s: %s (%s)' % (first[0], first[1], name, res, observe.short(got if res == 'raised' else first[2])))
            else:
                out.diffs('route', observe.diff(first[2], got), '%s vs %s' % (first[0], name))
    if sigs:
        out.sig = h(case)
        out.inter = h(sigs, first[1])
        out.probe('damaged image', bad)
        out.probe('refused by both', first[1] == 'raised')
    return out
