"""C07: a truncated file is refused or read exactly, never read wrongly."""
from .. import damage, gen as G, lib, monitor, observe, ole, world
from ..lib import Out, h

ID = 'C07'
QUICK, THOROUGH = 6000, 10 ** 7
RULE = ('A file (random workbook, random container layout or none) whose write stopped at several seeded lengths, biased to sector and record boundaries; each '
        'truncated image is opened eagerly or on demand: an exception, or exactly what the complete file shows. Non-trivial: at least one truncation lost bytes. '
        'Distinct: by file, layout, and lengths.')
MEASURE = 'distinct (structure in which the file was cut, refused or read, eager or on demand)'
TECHNIQUE = 'deterministic simulation with fault injection: seeded torn writes (crash points of a file writer), compared with the complete file'
NOTE = 'Seeded search over cut points and layouts; differential against the complete file, which is itself compared with the reference model.'


def gen(rng, tier, i):
    opts = lib.gen_opts(rng, od=rng.random() < 0.3)
    wb = G.gen_wb(rng, fmt=opts['fmt'], maxcells=rng.choice([3, 12, 30]))
    plan = ole.gen_plan(rng, rng.choice([1500, 4096, 6000])) if rng.random() < 0.75 else None
    cuts = []
    for _ in range(rng.choice([2, 4, 6])):
        k = rng.choice(['frac', 'sector', 'sector', 'sector', 'record', 'record', 'end', 'start'])
        cuts.append([k, rng.randrange(1 << 20), rng.choice([0, 0, 0, -1, 1, -2, 3, 4, -4, 100])])
    return {'wb': wb, 'plan': plan, 'opts': opts, 'cuts': cuts, 'way': rng.choice(['bytes', 'bytes', 'mmap', 'read'])}


def view(bk, fmt, od):
    """-> observation of the book, list per sheet of observation or exception"""
    o = observe.obs_book(bk, fmt)
    sh = []
    for k in range(bk.nsheets):
        try:
            sh.append(observe.obs_sheet(bk.sheet_by_index(k), fmt))
        except Exception as e:
            lib.guard(e)
            if not od:
                raise
            sh.append(e)
    return o, sh


def run(case):
    out = Out()
    stream, info, exp = lib.model_of(case)
    data, im = lib.image_of(case, stream)
    fmt, od = bool(case['opts'].get('fmt')), bool(case['opts'].get('od'))
    n = len(data)
    recs = [p for p, _ in damage.records(stream)]
    inter = []
    with world.World() as w:
        try:
            bk = lib.open_book(w, data, case['opts'], case['way'])
            full, fsheets = view(bk, fmt, False)
            bk.release_resources()
            got = dict(full, sheets=fsheets)
        except Exception as e:
            lib.guard(e)
            out.bad('refused', 'the complete file: %s at %s' % (lib.show(e), lib.where(e)))
            return out
        out.diffs('wrong-result', observe.against(exp, got), 'complete file')
        for ci, (kind, a, b) in enumerate(case['cuts']):
            if kind == 'frac':
                pos = a % n
            elif kind == 'sector':
                ss = im.ss if im else 512
                pos = (a % (n // ss + 1)) * ss + (im.base % ss if im else 0) + b
            elif kind == 'record':
                if im is None:
                    pos = recs[a % len(recs)] + b
                else:
                    # where that record is stored
                    off = recs[a % len(recs)] + b
                    if im.main_group is None or not 0 <= off < len(stream):
                        pos = a % n
                    else:
                        pos = im.base + im.main['chain'][off // im.ss] * im.ss + off % im.ss
            elif kind == 'end':
                pos = n - 1 - a % 40
            else:
                pos = a % 1600
            pos = max(0, min(pos, n))
            if pos >= n:
                continue
            img = data[:pos]
            if not img and case['way'] == 'bytes':
                continue
            out.fault('torn write')
            where = 'bare stream'
            if im is not None:
                where = str(im.roles.get((pos - im.base) // im.ss, ('?',))[0]) if pos >= im.base else 'header'
                where = 'stream' if where == im.main_group else where
            ctx = 'cut at %d of %d (%s)' % (pos, n, where)
            try:
                with monitor.Budget(3000000 + 500 * n):
                    bk = lib.open_book(w, img, case['opts'], case['way'], name='c%d.xls' % ci)
                    o, shs = view(bk, fmt, od)
            except Exception as e:
                lib.guard(e)
                inter.append('%s refused %d' % (where, od))
                out.probe('refused')
                continue
            except monitor.BudgetExceeded as e:
                out.bad('endless', '%s: %s' % (ctx, e))
                continue
            bk.release_resources()
            out.probe('opened')
            inter.append('%s opened %d' % (where, od))
            out.diffs('wrong-result', observe.diff(full, o), ctx)
            if len(shs) != len(fsheets):
                out.bad('wrong-result', '%s: %d sheets of %d' % (ctx, len(shs), len(fsheets)))
            for k, (s, f) in enumerate(zip(shs, fsheets)):
                if isinstance(s, Exception):
                    out.probe('sheet refused')
                    continue
                out.diffs('wrong-result', observe.diff(f, s), '%s, sheet %d' % (ctx, k))
            if out.viol:
                break
        out.calls += 1 + len(case['cuts'])
    if inter:
        out.sig = h(case)
        out.inter = sorted(set(inter))
    return out
