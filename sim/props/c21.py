"""C21: defined names resolve to the right cells at any time in a Book's life."""
import struct

from .. import biff, ftext, gen as G, lib, observe, ole, world
from ..lib import Out, h

ID = 'C21'
QUICK, THOROUGH = 20000, 10 ** 7
RULE = ('A workbook with random defined names (cells, areas, unions, ranges, intersections, relative, 3-D, deleted, external and macro-sheet references, names of names in '
        'either direction, constants, expressions with operators, functions, arrays and missing arguments) over worksheets, charts and macro sheets in any order goes through a history of lookups and resolutions mixed with loads, unloads and '
        'a release, on an eager or on-demand Book. Each answer is checked against a small model of what the name denotes and against the reference cells. Non-trivial: at '
        'least one name was resolved to cells. Distinct: by names, sheets, options and history.')
MEASURE = 'distinct (kind of name, call, was the sheet loaded before, outcome)'
TECHNIQUE = 'deterministic simulation: seeded lifecycle histories of name lookups checked step by step against an executable reference model'
NOTE = 'Seeded search over names, references and histories of up to 25 operations on up to 6 sheets. Values of names other than references are not decided here (P02).'
STUBBED = 'file writer (simulated); system calls as in a fault-free run'


def gen(rng, tier, i):
    opts = lib.gen_opts(rng, od=rng.random() < 0.7)
    if rng.random() < 0.15:
        opts['verbosity'] = rng.choice([1, 2])
    v = rng.choice([80, 80, 80, 70, 50])
    wb = G.gen_wb(rng, v=v, fmt=opts['fmt'], nsheets=rng.choice([1, 2, 3, 4, 6]), maxcells=rng.choice([3, 8, 20]), names=False)
    for n in range(20):
        if rng.random() < 0.5:
            break
        k = rng.randrange(len(wb['sheets']))
        if k and wb['sheets'][k].get('type', 0) == 0:
            wb['sheets'][k].update(type=rng.choice([1, 2, 6]), items=[], items_raw=[])
    G.gen_names(rng, wb, rng.choice([1, 3, 6, 10]))
    names = wb['names']
    real = [k for k, s in enumerate(wb['sheets']) if s.get('type', 0) == 0]
    r = rng.randrange

    def part(sr=None):
        if sr is None:
            sr = [rng.choice(real)] * 2 if rng.random() < 0.9 else 'del'
        a, c = r(8), r(6)
        if rng.random() < 0.3:
            return ['ref', sr, a, c]
        return ['area', sr, a, c, a + r(6), c + r(5)]
    for k, d in enumerate(names):
        m = rng.random()
        if m < 0.15:
            sr = [rng.choice(real)] * 2 if rng.random() < 0.8 else None
            d['f'] = [rng.choice(['union', 'range', 'range', 'isect', 'isect']), [part(sr), part(sr)], r(2)]
            if d['f'][0] == 'union' and rng.random() < 0.3:
                d['f'][1].append(part(sr))
        elif m < 0.22 and k + 1 < len(names):
            d['f'] = ['name', k + 1 + r(len(names) - k - 1)]          # a name defined later
        elif m < 0.42:
            d['f'] = ['expr', expr(rng, wb, k, part, real, rng.choice([1, 2, 3]), rng.choice([None, None, 7]))]
        elif m < 0.5 and v >= 80 and k:
            d['f'] = ['namex', r(k), rng.choice(['any', [rng.choice(real)] * 2, [r(len(wb['sheets']))] * 2])]
        elif m < 0.5 and k:
            if not any(x[1] == 4 for _, x in wb.setdefault('ext57', [])):
                wb['ext57'].append([r(4), ['c', 4]])
            d['f'] = ['namex', r(k), 'any']
    if rng.random() < 0.004:
        names += [{'name': 'bulk%d' % k, 'scope': rng.choice([None, None, r(len(wb['sheets']))]), 'f': ['int', k]} for k in range(rng.choice([250, 256, 300]))]
    if v >= 80 and 'ext' not in wb['supbooks'] and 'ext' in biff.xti_list(wb):
        wb['supbooks'].append('ext')
    far = [65535, 32768, 32767, 65000] if v >= 80 else [16383, 8192, 8191, 16000]
    for d in names:
        # offsets to the left and upwards
        for e in [d['f']] if d['f'][0] != 'expr' else biff.expr_leaves(d['f'][1]):
            if e[0] in ('relref', 'relarea') and rng.random() < 0.5:
                for j in (2, 4) if e[0] == 'relarea' else (2,):
                    e[j], e[j + 1] = rng.choice([e[j], rng.choice(far)]), rng.choice([e[j + 1], rng.choice([255, 128, 127, 250])])
    ops = []
    for _ in range(rng.choice([3, 6, 12, 25])):
        op = rng.choice(['cell', 'cell', 'area', 'area', 'area', 'raw', 'map', 'maps', 'load', 'unload', 'unload', 'result', 'missing'])
        ops.append([op, r(1000)])
    if rng.random() < 0.25:
        ops.insert(r(len(ops) + 1), ['release', 0])
    return {'wb': wb, 'opts': opts, 'ops': ops, 'way': rng.choice(lib.WAYS), 'plan': ole.gen_plan(rng, rng.choice([3000, 6000])) if rng.random() < 0.4 else None}


def expr(rng, wb, k, part, real, depth, z=None):
    """A random formula of a name: what a user may type into the Define Name box."""
    r = rng.randrange

    def sub():
        return expr(rng, wb, k, part, real, depth - 1)

    def ref():
        q = rng.random()
        if q < 0.15 and k:
            return ['name', r(k)] + rng.choice([[], ['V']])
        if q < 0.25:
            return ['relref', [rng.choice(real)] * 2, r(8), r(6)] + rng.choice([[], [1 + r(3)]]) + rng.choice([[], ['V']])
        if q < 0.29:
            return ['referr', r(4), [rng.choice(real)] * 2]
        return part() + rng.choice([[], [], ['V'], ['A']])

    def leaf():
        z = r(9)
        if z == 0:
            return ['num', struct.pack('<d', rng.choice([0.0, 0.5, -2.25, 1e300, 3.0])).hex()]
        if z == 1:
            return ['int', rng.choice([0, 1, 2, 7, 65535])]
        if z == 2:
            return ['str', rng.choice(['', 'abc', '12', '1.5', 'Total', 'say "x"', '(', 'a,b'])]
        if z == 3:
            return ['bool', r(2)]
        if z == 4:
            return ['err', rng.choice([0, 7, 15, 23, 29, 36, 42])]
        if z == 5:
            return ['arr', [r(9) for _ in range(1 + r(3))]]
        return ref()
    if depth <= 0:
        return leaf()
    z = r(14) if z is None else z
    if z < 2:
        return ['un', rng.choice('+-%'), sub()]
    if z < 6:
        return ['bin', rng.choice(['+', '-', '*', '/', '^', '&', '<', '<=', '=', '>=', '>', '<>']), sub(), sub()]
    if z == 6:
        return ['paren', sub()]
    if z == 7:
        # references combined: each side is a reference again
        def rr(dd):
            if dd and rng.random() < 0.5:
                e = ['bin', rng.choice(' ,:'), rr(dd - 1), rr(dd - 1)]
                return e if rng.random() < 0.5 else ['paren', e]
            return rng.choice([ref, ref, part, lambda: ['fv', 78, [part(), ['int', 1], ['int', 0]]]])()
        e = ['bin', rng.choice(' ,:'), rr(2), rr(2)]
        if rng.random() < 0.2:
            e[2 + r(2)] = ['relref', [rng.choice(real)] * 2, r(8), r(6)]
        if rng.random() < 0.2:
            e[2:] = [['relref', [rng.choice(real)] * 2, r(8), r(6)] + rng.choice([[], ['V']]) for _ in '12']
        return ['mem', e] if rng.random() < 0.3 else e
    if z == 8:
        return [rng.choice(['space', 'vol', 'sum1']), sub()]
    if z < 11:
        f = rng.choice(sorted(biff.FIXED))
        return ['fn', f, [sub() for _ in range(biff.FIXED[f])]]
    f = rng.choice(sorted(biff.VARIABLE) + [1, 4, 100] * 6)
    a, b = biff.VARIABLE[f]
    b = min(b, a + 3) if rng.random() < 0.95 else b
    args = [sub() if rng.random() < 0.85 or j == 0 else ['miss'] for j in range(a + r(b - a + 1))]
    if f in (1, 100) and rng.random() < 0.5:
        args[0] = rng.choice([['bool', r(2)], ['int', r(3)]])
        args[1:] = [part() if rng.random() < 0.7 else x for x in args[1:]]
    if f in (78, 76, 8, 9, 29) and args:
        args[0] = part()
    if f == 255 and k:
        args[0] = ['name', r(k)]
    return ['fv', f, args] + ([1] if f in (1, 100) and rng.random() < 0.5 else [])


ANY = 'any'


def deps(wb, k):
    f = wb['names'][k]['f']
    if f[0] in ('name', 'namex'):
        return [f[1]]
    if f[0] == 'expr':
        return [x[1] for x in biff.expr_leaves(f[1]) if x[0] in ('name', 'namex')]
    return []


def depth(wb, k, n=0):
    lib.req(n < 9)
    for j in deps(wb, k):
        lib.req(j != k and 0 <= j < len(wb['names']))
        depth(wb, j, n + 1)


def denotes_expr(wb, e, k, depth):
    """like denotes; ANY where either answer is right"""
    if e[0] in ('paren', 'space', 'vol', 'mem'):
        return denotes_expr(wb, e[1], k, depth)
    if e[0] in ('ref', 'area', 'relref', 'relarea', 'name'):
        if e[-1] in ('V', 'A'):
            return ANY
        return denotes(wb, k, depth, e)
    if e[0] in ('un', 'sum1', 'fn', 'referr', 'num', 'int', 'str', 'bool', 'err', 'miss', 'arr'):
        return None
    if e[0] == 'bin':
        return ANY if e[1] in ' ,:' else None
    if e[0] == 'fv' and e[1] == 1 and e[2][0][0] == 'bool':
        t = e[2][0][1]
        if not t and len(e[2]) == 2:
            return None
        return denotes_expr(wb, e[2][1 if t else 2], k, depth)
    if e[0] == 'fv' and e[1] == 100 and e[2][0][0] == 'int':
        t = e[2][0][1]
        return denotes_expr(wb, e[2][t], k, depth) if 1 <= t < len(e[2]) else None
    if e[0] == 'fv' and e[1] in (1, 100):
        return ANY
    return None


def troubled(wb, f, depth):
    """does the formula have, anywhere, a part without a value?"""
    lib.req(depth < 9)
    if not isinstance(f, list) or not f:
        return False
    if f[0] == 'referr':
        return True
    if f[0] in ('ref', 'area', 'relref', 'relarea'):
        return not isinstance(f[1], list) or any(biff.all_to_real(wb, s) is None for s in f[1])
    if f[0] in ('name', 'namex') and isinstance(f[1], int):
        d = wb['names'][f[1]]
        return bool(d.get('macro') or d.get('binary')) or f[0] == 'namex' or troubled(wb, d['f'], depth + 1)
    return any(troubled(wb, g, depth) for g in f)


def denotes(wb, k, depth=0, f=None):
    """-> (sheet, row, row end, col, col end), or None if name k is not one area of one sheet"""
    lib.req(depth < 9)
    f = f or wb['names'][k]['f']
    if f[0] == 'expr':
        return denotes_expr(wb, f[1], k, depth)

    def box(f):
        if f[0] not in ('ref', 'area') or not isinstance(f[1], list) or f[1][0] != f[1][1]:
            return None
        s = biff.all_to_real(wb, f[1][0])
        if s is None:
            return None
        lib.req(f[0] == 'ref' or f[2] <= f[4] and f[3] <= f[5])
        return (s, f[2], f[2] + 1, f[3], f[3] + 1) if f[0] == 'ref' else (s, f[2], f[4] + 1, f[3], f[5] + 1)
    if f[0] in ('ref', 'area'):
        return box(f)
    if f[0] in ('range', 'isect'):
        lib.req(len(f[1]) == 2)
        a, b = box(f[1][0]), box(f[1][1])
        if a is None or b is None or a[0] != b[0]:
            return None
        fn = (min, max) if f[0] == 'range' else (max, min)
        x = tuple([a[0]] + [fn[j % 2 == 0](a[j], b[j]) for j in (1, 2, 3, 4)])
        return x if x[1] < x[2] and x[3] < x[4] else None
    if f[0] in ('name', 'namex'):
        t = f[1]
        lib.req(t != k and t < len(wb['names']))
        x = denotes(wb, t, depth + 1)
        if wb['names'][t]['f'][0] == 'expr' and x is not None and troubled(wb, wb['names'][t]['f'], depth + 1):
            x = ANY          # a name with a lost reference anywhere in its formula is not resolved through another one
        if wb['names'][t].get('macro') or wb['names'][t].get('binary'):
            return None
        if f[0] == 'namex' and isinstance(f[2], list):
            if biff.all_to_real(wb, f[2][0]) is None:
                return None
        return x
    return None


def refval(wb, e, depth=0):
    """the value of a formula of references alone: (relative?, boxes or None or ANY), 'null' for an
    empty intersection, or None where nothing is said; a box is (coords, relflags)"""
    lib.req(depth < 12)
    t = e[0]
    if t == 'expr' or t in ('paren', 'space', 'vol', 'mem'):
        return refval(wb, e[1], depth + 1)
    if t in ('range', 'isect', 'union'):
        if len(e[1]) != 2:
            return None
        if t == 'union':
            return refval(wb, ['bin', ',', e[1][0], e[1][1]], depth + 1)
        return refval(wb, ['bin', ':' if t == 'range' else ' ', e[1][0], e[1][1]], depth + 1)
    if t == 'name':
        d = wb['names'][e[1]]
        if d.get('macro') or d.get('binary') or d['f'][0] in ('none', 'sum', 'namex') or troubled(wb, d['f'], depth + 1):
            return None
        return refval(wb, d['f'], depth + 1)
    if t in ('ref', 'area', 'relref', 'relarea'):
        if not isinstance(e[1], list):
            return None
        z = [biff.all_to_real(wb, q) for q in e[1]]
        if None in z or z[0] > z[1]:
            return None
        if t in ('ref', 'area'):
            a = [e[2], e[2], e[3], e[3]] if t == 'ref' else [e[2], e[4], e[3], e[5]]
            a += [0] * 4
        else:
            a = ftext.relative(wb, e)
        v = ((z[0], z[1] + 1, a[0], a[1] + 1, a[2], a[3] + 1), (0, 0) + tuple(a[4:]))
        return (any(a[4:]), None if e[-1] in ('V', 'A') else [v])
    if t == 'bin' and e[1] in ' ,:':
        l, r = refval(wb, e[2], depth + 1), refval(wb, e[3], depth + 1)
        if l is None or r is None or 'null' in (l, r):
            return None
        rel = l[0] or r[0]
        if l[1] is None or r[1] is None:
            return rel, None
        if ANY in (l[1], r[1]):
            return rel, ANY
        if e[1] == ',':
            return rel, l[1] + r[1]
        if len(l[1]) != 1 or len(r[1]) != 1:
            return rel, ANY
        (a, fa), (b, fb) = l[1][0], r[1][0]
        if fa != fb or a[:2] != b[:2] or a[1] - a[0] != 1:
            return rel, ANY
        fn = (min, max) if e[1] == ':' else (max, min)
        c = tuple(fn[j % 2](a[j], b[j]) for j in range(6))
        if e[1] == ' ' and (c[2] >= c[3] or c[4] >= c[5]):
            return 'null' if not rel else None
        return rel, [(c, fa)]
    return None


def check_refs(wb, f, kind, val):
    """a value of references, where one is given, is the right one"""
    w = refval(wb, f)
    if w is None:
        return None
    if w == 'null':
        return None if (kind, val) in ((4, 0), (0, None)) else 'kind %r value %r, expected #NULL!' % (kind, val)
    if val is None:
        return 'no value, expected %r' % (w[1],) if w[1] not in (None, ANY) else None
    if w[1] is ANY:
        return None
    if kind not in (-1, -2):
        return 'kind %r value %r, expected references %r' % (kind, val, w[1])
    g = [(tuple(v.coords), tuple(int(q) for q in v.relflags)) for v in val]
    if w[1] is None or g != w[1]:
        return 'references %r, expected %r' % (g, w[1])
    if (kind == -2) != bool(w[0]):
        return 'kind %r for references %r' % (kind, g)
    for v in val:
        a = 'Ref3D(coords=%r' % (tuple(v.coords),)
        if not repr(v).startswith(a) or (', relflags=%r' % (tuple(v.relflags),) in repr(v)) != any(v.relflags):
            return 'repr %r' % (v,)
    return None


def run(case):
    out = Out()
    x = lib.xlrd
    wb = case['wb']
    lib.req(wb['v'] >= 50)
    stream, info, exp = lib.model_of(case)
    data, im = lib.image_of(case, stream)
    opts, fmt = case['opts'], bool(case['opts'].get('fmt'))
    names = wb.get('names') or []
    if not names:
        return out
    for k in range(len(names)):
        depth(wb, k)
    want = [denotes(wb, k) for k in range(len(names))]
    used = set()          # names that another one uses: a macro name among them may or may not have a value
    for k in range(len(names)):
        used.update(deps(wb, k))
    en = exp['names']
    nm, ns = {}, {}
    for k, d in enumerate(en):
        nm.setdefault(d['name'].lower(), []).append((d['scope'], k))
        ns.setdefault((d['name'].lower(), d['scope']), []).append(k)
    nsheets = len(exp['sheets'])
    reached = set()
    good = 0
    with world.World() as w:
        try:
            bk = lib.open_book(w, data, opts, case['way'])
        except Exception as e:
            lib.guard(e)
            out.bad('refused', 'opening raised %s at %s' % (lib.show(e), lib.where(e)))
            return out
        od = bool(opts.get('od'))
        released = not od
        live = {} if od else dict(enumerate(bk.sheets()))
        objs = list(bk.name_obj_list)
        if len(objs) != len(names):
            out.bad('names', '%d names, expected %d' % (len(objs), len(names)))
            return out

        def sheet(k, s, ctx):
            if k in live and s is not live[k]:
                out.bad('identity', '%s: another object for sheet %d, which was loaded' % (ctx, k))
            if s.number != k:
                out.bad('wrong-sheet', '%s: sheet %d, expected %d' % (ctx, s.number, k))
            if k not in live:
                if released:
                    out.bad('after-release', '%s loaded sheet %d' % (ctx, k))
                live[k] = s
                out.diffs('wrong-sheet', observe.against_sheet(exp['sheets'][k], observe.obs_sheet(s, fmt)), ctx)

        def maps(ctx):
            a, b = observe.obs_maps(bk)
            d = []
            observe.diff({k: [j for _, j in sorted(v)] for k, v in nm.items()}, a, 'name_map', out=d)
            if sorted(b) != sorted('%s|%d' % k for k in ns):
                d.append('name_and_scope_map keys %r, expected %r' % (sorted(b), sorted('%s|%d' % k for k in ns)))
            else:
                for k, js in ns.items():
                    if b['%s|%d' % k] not in js:
                        d.append('name_and_scope_map[%r]: name %r, expected %r' % (k, b['%s|%d' % k], js))
            out.diffs('maps', d, ctx)
            d = []
            observe.diff(en, observe.obs_names(bk), 'names', subset=True, out=d)
            out.diffs('names', d, ctx)

        def refuse(fn, ctx):
            try:
                r = fn()
            except x.XLRDError:
                return
            except Exception as e:
                lib.guard(e)
                out.bad('exception', '%s raised %s at %s, expected XLRDError' % (ctx, lib.show(e), lib.where(e)))
                return
            out.bad('not-refused', '%s returned %s' % (ctx, observe.short(r)))
        real = [q['name'] for q in exp['sheets']]

        def results(ctx):
            # what a name's formula says, and the value of a constant one
            for k, d in enumerate(names):
                f = d['f']
                if f[0] in ('none', 'sum') or d.get('macro') or d.get('binary') or out.viol:
                    continue
                q = objs[k].result
                if q is None:
                    out.bad('result', '%s: no result for name %d %r' % (ctx, k, f))
                    continue
                for m in (ftext.check_text(wb, f, q.text, real, en), ftext.check_value(wb, f, q.kind, q.value),
                          check_refs(wb, f, q.kind, q.value)):
                    if m:
                        out.bad('text', '%s: name %d: %s' % (ctx, k, m))
                if f[0] in ('relref', 'relarea') and isinstance(f[1], list) and f[1][0] == f[1][1] and biff.all_to_real(wb, f[1][0]) is not None:
                    a = ftext.relative(wb, f)
                    z = biff.all_to_real(wb, f[1][0])
                    rel = any(a[4:])
                    want = [[z, z + 1, a[0], a[1] + 1, a[2], a[3] + 1], [0, 0] + list(a[4:])]
                    g = [[list(v.coords), [int(x) for x in v.relflags]] for v in q.value or []]
                    if g != [want] or q.kind != (x.formula.oREL if rel else x.formula.oREF):
                        out.bad('text', '%s: name %d %r: kind %r, %r, expected %r' % (ctx, k, f, q.kind, g, want))
        maps('at open')
        results('at open')
        for step, (op, arg) in enumerate(case['ops']):
            if out.viol:
                break
            k = arg % len(names)
            o = objs[k]
            t = want[k]
            f = names[k]['f']
            ctx = 'step %d %s of name %d %r' % (step, op, k, f)
            out.calls += 1
            if (names[k].get('macro') or names[k].get('binary')) and k in used and op in ('cell', 'area', 'raw', 'result'):
                continue
            if names[k].get('macro') or names[k].get('binary'):
                t = None
            before = t is not None and t[0] in live
            if t is ANY:
                if op in ('cell', 'area', 'raw', 'result'):
                    # how far such a formula is resolved is left open, but it fails only as documented
                    try:
                        if op == 'cell':
                            o.cell()
                        elif op != 'result':
                            o.area2d(clipped=op == 'area')
                    except (x.XLRDError, IndexError):
                        pass
                    except Exception as e:
                        lib.guard(e)
                        out.bad('exception', '%s raised %s at %s, expected XLRDError' % (ctx, lib.show(e), lib.where(e)))
                    for j in range(nsheets):
                        if bk.sheet_loaded(j) and j not in live:
                            sheet(j, bk.sheet_by_index(j), ctx)
                    reached.add('%s %s %d' % (f[0], op, before))
                    continue
                t = None
            try:
                if op in ('cell', 'area', 'raw'):
                    fn = o.cell if op == 'cell' else o.area2d if op == 'area' else lambda: o.area2d(clipped=False)
                    if arg % 5 == 0 and op == 'area':
                        def fn():
                            return o.area2d(True)
                    one = t is not None and t[2] - t[1] == 1 and t[4] - t[3] == 1
                    if t is None or op == 'cell' and not one:
                        refuse(fn, ctx)
                        res = 'refused'
                    elif t[0] not in live and released:
                        refuse(fn, ctx + ' after release')
                        res = 'released'
                    elif op == 'cell':
                        es = exp['sheets'][t[0]]
                        lens = [n for n, c in es['row_len'] for _ in range(c)] if es['nrows'] <= t[1] + 70000 else []
                        if t[1] >= es['nrows'] or t[3] >= lens[t[1]]:
                            # no such cell: whatever happens, nothing is harmed
                            res = 'outside'
                            try:
                                fn()
                            except Exception as e:
                                lib.guard(e)
                            if bk.sheet_loaded(t[0]):
                                sheet(t[0], bk.sheet_by_index(t[0]), ctx)
                        else:
                            c = fn()
                            res = 'cell'
                            good += 1
                            e = es['cells'].get('%d,%d' % (t[1], t[3]))
                            g = [c.ctype, observe.val(c.value)]
                            if (e or [0, 's:']) != g and not (e is None and g[0] == 0):
                                out.bad('wrong-cell', '%s: %r, expected %r' % (ctx, g, e))
                            if fmt and e is not None and c.xf_index != es['xf']['%d,%d' % (t[1], t[3])]:
                                out.bad('wrong-cell', '%s: xf %r' % (ctx, c.xf_index))
                            if not bk.sheet_loaded(t[0]):
                                out.bad('loaded', '%s: its sheet is not reported as loaded' % ctx)
                            else:
                                sheet(t[0], bk.sheet_by_index(t[0]), ctx)
                    else:
                        a = fn()
                        res = 'area'
                        good += 1
                        if len(a) != 5:
                            out.bad('wrong-area', '%s: %r' % (ctx, a))
                            break
                        sheet(t[0], a[0], ctx)
                        es = exp['sheets'][t[0]]
                        e = list(t[1:])
                        if op == 'area':
                            for j, lim in ((0, es['nrows']), (2, es['ncols'])):
                                e[j] = min(e[j], lim)
                                e[j + 1] = max(e[j], min(e[j + 1], lim))
                        if [int(q) for q in a[1:]] != e:
                            out.bad('wrong-area', '%s: %r, expected %r' % (ctx, a[1:], e))
                    reached.add('%s %s %d %s' % (f[0], op, before, res))
                elif op == 'map':
                    l = bk.name_map[en[k]['name'].lower()]
                    e = [j for _, j in sorted(nm[en[k]['name'].lower()])]
                    if [q.name_index for q in l] != e or not any(q is o for q in l):
                        out.bad('maps', '%s: %r, expected %r' % (ctx, [q.name_index for q in l], e))
                elif op == 'maps':
                    maps(ctx)
                elif op == 'missing':
                    if ('no such name', -1) in bk.name_and_scope_map or 'no such name' in bk.name_map:
                        out.bad('maps', ctx)
                elif op == 'result':
                    if t is not None:
                        q = o.result
                        g = [list(v.coords) for v in q.value] if q is not None and isinstance(q.value, list) else None
                        if q is None or q.kind != x.formula.oREF or g != [[t[0], t[0] + 1] + list(t[1:])]:
                            out.bad('result', '%s: %s, expected %r' % (ctx, observe.short(q), t))
                elif op == 'load':
                    j = arg % nsheets
                    if j in live or not released:
                        sheet(j, bk.sheet_by_index(j), ctx)
                elif op == 'unload':
                    if od:
                        j = arg % nsheets
                        bk.unload_sheet(j)
                        live.pop(j, None)
                elif op == 'release':
                    bk.release_resources()
                    released = True
            except Exception as e:
                lib.guard(e)
                out.bad('exception', '%s raised %s at %s' % (ctx, lib.show(e), lib.where(e)))
                break
            for j in range(nsheets):
                if bool(bk.sheet_loaded(j)) != (j in live):
                    out.bad('loaded', 'after %s: sheet_loaded(%d) is %r' % (ctx, j, bk.sheet_loaded(j)))
                    break
        if not out.viol:
            maps('at the end')
            results('at the end')
        bk.release_resources()
        lib.no_output(out, 'using names')
        out.world(w)
    for op in case['ops']:
        out.probe(op[0])
    if good:
        out.sig = h(names, case['ops'], opts, stream.hex())
        out.inter = sorted(reached)
    return out
