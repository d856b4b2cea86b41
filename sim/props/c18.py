"""C18: dump and count_records account for every record of the stream."""
import re
import struct

from .. import biff, gen as G, lib, ole, world
from ..lib import Out, h

ID = 'C18'
QUICK, THOROUGH = 11000, 10 ** 7
RULE = ('A stream of records (those of a random workbook, or arbitrary codes and lengths with dummies, empty and long records, zero padding and odd bytes at the end) is stored '
        'in a seeded container or bare, then dumped and counted, numbered and not, into an output that may fail at a seeded write. The dump is read back and must spell the '
        'stream byte for byte at the right offsets; the counts must be those of the framed stream. Non-trivial: at least three records. Distinct: by stream, layout, '
        'form and failing write.')
MEASURE = 'distinct (layout class, form, outcome, kinds of record edge met)'
TECHNIQUE = 'deterministic simulation with fault injection: seeded streams and layouts, output read back against a framing model, output failing at seeded writes'
NOTE = 'Seeded search over record sequences, container layouts and failing writes.'
STUBBED = 'file writer and allocator (simulated), output file (simulated, failing at seeded writes)'
HEAD = re.compile(r'^(?: *(\d+): )?([0-9a-f]{4}) (.+) len = ([0-9a-f]{4}) \((\d+)\)$')
HEX = re.compile(r'^(?: *(\d+): )?     ((?:[0-9a-f]{2} )+) *')
ZERO = re.compile(r'^(?: *(\d+): )?---- (\d+) zero bytes skipped ----$')
MISC = re.compile(r'^(?: *(\d+): )?---- Misc bytes at end ----$')
COUNT = re.compile(r'^ *\d+ \S+')
KNOWN = {0x0A: 'EOF', 0xFC: 'SST', 0x3C: 'CONTINUE', 0x85: 'BOUNDSHEET', 0x31: 'FONT', 0xE0: 'XF'}


def gen(rng, tier, i):
    c = {}
    if rng.random() < 0.35:
        c['wb'] = G.gen_wb(rng, fmt=int(rng.random() < 0.5), maxcells=rng.choice([3, 10]))
        if rng.random() < 0.4:
            c['wb'].pop('tail', None)
    else:
        recs = []
        for _ in range(rng.choice([1, 3, 6, 15, 40])):
            m = rng.random()
            code = rng.choice([0x809, 0x0A, 0xFC, 0x3C, 0x85, 0x31, 0xE0, 0x203, 0x00, 0x200, 0x42, rng.randrange(65536), rng.randrange(65536), rng.randrange(0x1000)])
            n = rng.choice([0, 0, 1, 2, 3, 4, 15, 16, 17, 32, 33, rng.randrange(100), rng.randrange(100), rng.choice([2080, 8224, 300, 65535 if rng.random() < 0.2 else 8223])])
            if m < 0.12:
                code, n = 0, 0
            recs.append([code, n, rng.choice([0, 0, 1, rng.randrange(256)])])
        c['recs'] = recs
        c['end'] = rng.choice([0, 0, 0, 0, 1, 2, 3, 4, 5, 8, 11, 100, 512])
        c['endbyte'] = rng.choice([0, 7]) if c['end'] < 4 else 0
    if rng.random() < 0.75:
        c['plan'] = ole.gen_plan(rng, rng.choice([300, 2000, 5000]))
    if rng.random() < 0.35:
        c['fail'] = [rng.choice([0, 1, 2, rng.randrange(60), rng.randrange(400)]), rng.choice(['ENOSPC', 'EIO', 'EPIPE', 'ValueError', 'KeyboardInterrupt', 'MemoryError'])]
    c['un'] = int(rng.random() < 0.3)
    c['first'] = rng.choice(['dump', 'count'])
    return c


def stream_of(case):
    if 'wb' in case:
        return biff.build(case['wb'])[0]
    s = b''
    for code, n, seed in case['recs']:
        lib.req(0 <= code < 65536 and 0 <= n < 65536)
        s += struct.pack('<HH', code, n) + bytes((k * seed + (seed >> 3)) & 255 for k in range(n))
    e = case.get('end', 0)
    b = case.get('endbyte', 0)
    # bytes left over must not look like a record
    lib.req(b == 0 or e < 4)
    return s + bytes([b]) * e


def frame(s):
    """[(offset, code, length)], offset of what is left: padding or too short for a record; None if ill-framed"""
    recs, pos = [], 0
    while len(s) - pos >= 4:
        if not any(s[pos:]):
            break
        code, n = struct.unpack('<HH', s[pos:pos + 4])
        if pos + 4 + n > len(s):
            return None, pos
        recs.append((pos, code, n))
        pos += 4 + n
    return recs, pos


def readback(text, numbered):
    """-> bytes spelled, [(offset given, code, name, length, bytes given)], problems"""
    spelled, recs, bad = bytearray(), [], []
    misc = False
    for ln in text.split('\n'):
        if not ln:
            continue
        m = HEAD.match(ln)
        z = ZERO.match(ln)
        q = MISC.match(ln)
        x = HEX.match(ln)
        g = m or z or q or x
        if not m and not z and not x and not q and not spelled:
            continue                # a remark about the container, before the dump begins
        if not g:
            bad.append('unknown line %r' % ln)
            continue
        if numbered and (g.group(1) is None or int(g.group(1)) != len(spelled)):
            bad.append('offset %s where %d bytes have been accounted for: %r' % (g.group(1), len(spelled), ln))
        if m:
            code, n = int(m.group(2), 16), int(m.group(4), 16)
            if n != int(m.group(5)):
                bad.append('two lengths: %r' % ln)
            if recs and not misc and recs[-1][4] != recs[-1][3]:
                bad.append('record at %d: %d bytes of %d' % (recs[-1][0], recs[-1][4], recs[-1][3]))
            recs.append([len(spelled), code, m.group(3), n, 0])
            spelled += struct.pack('<HH', code, n)
        elif z:
            spelled += bytes(int(z.group(2)))
        elif x:
            b = bytes.fromhex(x.group(2))
            chars = ''.join('~' if v == 0 else chr(v) if 32 <= v <= 126 else '?' for v in b)
            if not ln.endswith(' ' + chars):
                bad.append('the characters do not match the bytes: %r' % ln)
            spelled += b
            if recs and not misc:
                recs[-1][4] += len(b)
        elif q:
            misc = True
    return bytes(spelled), recs, bad


def run(case):
    out = Out()
    x = lib.xlrd
    s = stream_of(case)
    lib.req(s and s[:8] != ole.SIG)
    recs, left = frame(s)
    if recs is None:
        return out
    data, im = (ole.build(s, case['plan']).data, 1) if case.get('plan') is not None else (s, None)
    lib.req(data)
    fail = case.get('fail')
    outs = {}
    kinds = set()
    with world.World() as w:
        p = w.put('b.xls', data)
        for what in ['dump', 'count'] if case['first'] == 'dump' else ['count', 'dump']:
            o = lib.Log()
            try:
                if what == 'dump':
                    x.dump(p, o, bool(case['un'])) if case['un'] else x.dump(p, o)
                else:
                    x.count_records(p, o)
            except Exception as e:
                lib.guard(e)
                out.bad('refused', '%s raised %s at %s' % (what, lib.show(e), lib.where(e)))
                return out
            outs[what] = o.getvalue()
            out.calls += 1
            hd = w.held()
            if hd:
                out.bad('held', '%s returned, still held: %s' % (what, ', '.join(hd)))
        spelled, got, bad = readback(outs['dump'], not case['un'])
        if bad:
            out.bad('dump', '; '.join(bad[:3]))
        elif spelled != s:
            k = next((j for j in range(min(len(s), len(spelled))) if s[j] != spelled[j]), min(len(s), len(spelled)))
            out.bad('dump', 'the dump spells %d bytes, the stream has %d; they differ at %d' % (len(spelled), len(s), k))
        else:
            want = [(a, c, n) for a, c, n in recs if (c, n) != (0, 0)]
            if [(r[0], r[1], r[3]) for r in got] != want:
                out.bad('dump', 'records %s, expected %s' % (got[:5], want[:5]))
        names = {}
        for r in got:
            if names.setdefault(r[1], r[2]) != r[2]:
                out.bad('dump', 'code %04x is called %r and %r' % (r[1], names[r[1]], r[2]))
            if r[1] in KNOWN and r[2] != KNOWN[r[1]]:
                out.bad('dump', 'code %04x is called %r' % (r[1], r[2]))
        tally = {}
        for a, c, n in recs:
            nm = '<Dummy (zero)>' if (c, n) == (0, 0) else names.get(c)
            if nm == '<UNKNOWN>':
                nm = 'Unknown_0x%04X' % c
            tally[nm] = tally.get(nm, 0) + 1
        cnt = {}
        for ln in outs['count'].split('\n'):
            if not COUNT.match(ln) and not cnt:
                continue            # a remark about the container, before the counts begin
            if ln:
                n, nm = ln.strip().split(' ', 1)
                if nm in cnt:
                    out.bad('count', '%r is listed twice' % nm)
                cnt[nm] = int(n)
        if not out.viol and cnt != tally:
            out.bad('count', 'counted %r, expected %r' % (sorted(set(cnt.items()) - set(tally.items()))[:4], sorted(set(tally.items()) - set(cnt.items()))[:4]))
        lib.no_output(out, 'dump and count')
        res = 'ok'
        if fail and not out.viol:
            for what in ('dump', 'count'):
                o = lib.Log(fail[0], fail[1])
                err = None
                try:
                    (x.dump if what == 'dump' else x.count_records)(p, o)
                except BaseException as e:
                    err = e
                    hd = w.held()
                    if hd:
                        out.bad('held', '%s: %s, still held: %s' % (what, lib.show(e), ', '.join(hd)))
                if o.raised is None:
                    if err is not None:
                        lib.guard(err)
                        out.bad('exception', '%s raised %s' % (what, lib.show(err)))
                else:
                    res = 'failed'
                    out.fault('output write fails: ' + fail[1])
                    if err is not o.raised:
                        out.bad('hidden', '%s: write %d of the output failed with %s, the caller got %s' % (what, fail[0], lib.show(o.raised), 'nothing' if err is None else lib.show(err)))
                    elif not case['un'] or what == 'count':
                        if not outs[what].startswith(o.getvalue()):
                            out.bad('partial', '%s: what was written before the failure is not the beginning of the output' % what)
                err = None
        out.world(w)
    kinds = sorted(set(['dummy'] * any((c, n) == (0, 0) for a, c, n in recs) + ['empty'] * any(n == 0 and c for a, c, n in recs) + ['long'] * any(n > 8000 for a, c, n in recs) +
                       ['padding'] * (len(s) - left >= 4) + ['odd bytes'] * (0 < len(s) - left < 4) + ['unknown'] * ('<UNKNOWN>' in names.values())))
    for k in kinds:
        out.probe(k)
    if len(recs) >= 3:
        out.sig = h(s.hex(), case.get('plan'), case['un'], fail)
        out.inter = h(case.get('plan') is not None and sorted(case['plan']), case['un'], res, kinds)
    return out
