"""What bad storage does to the bytes of a file.  A damage is a list of small JSON operations; positions are taken
modulo the length so that minimised cases stay meaningful."""
import struct

VALUES = ['00', 'ff', '7f', '80', '01', '0000', 'ffff', 'ff7f', '0080', '0100', 'feff', '2020', '00000000', 'ffffffff', 'feffffff', 'fdffffff',
          'fcffffff', 'ffffff7f', '00000080', '01000000', '0000ffff', '00010000', 'ffff0000']


def records(stream, base=0, end=None):
    """offsets of the records of a substream"""
    out = []
    pos = base
    end = len(stream) if end is None else end
    while pos + 4 <= end:
        n = struct.unpack_from('<H', stream, pos + 2)[0]
        out.append((pos, n))
        pos += 4 + n
    return out


def gen(rng, n=None, kinds=None, base=9):
    """damages to raw bytes"""
    out = []
    for _ in range(n or rng.choice([1, 1, 1, 2, 3, 8])):
        k = rng.choice(kinds or ['flip', 'flip', 'set', 'set', 'zero', 'rand', 'swap', 'copy', 'cut', 'del', 'ins'])
        pos = rng.choice([rng.randrange(1 << 24), rng.randrange(512), rng.randrange(4096)])
        if k == 'flip':
            out.append([k, pos, rng.randrange(8)])
        elif k == 'set':
            out.append([k, pos, rng.choice(VALUES)])
        elif k == 'zero':
            out.append([k, pos, rng.choice([1, 4, 16, 64, 512, 512, 4096]), rng.choice([0, 0, 255, 0xE5])])
        elif k == 'rand':
            out.append([k, pos, bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 4, 16, 64]))).hex()])
        elif k in ('swap', 'copy'):
            out.append([k, rng.choice([64, 512, 512, 512, 4096]), rng.randrange(1 << 16), rng.randrange(1 << 16)])
        elif k == 'cut':
            out.append([k, pos])
        elif k == 'del':
            out.append([k, pos, rng.choice([1, 2, 4, 64, 512])])
        else:
            out.append([k, pos, bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 4, 64]))).hex()])
    return out


def gen_rec(rng, n=None):
    """damages to fields of records of the stream, before it is stored"""
    out = []
    for _ in range(n or rng.choice([1, 1, 1, 2, 4])):
        k = rng.choice(['field', 'field', 'field', 'field', 'len', 'code', 'drop', 'dup', 'swap', 'short', 'long'])
        r = rng.randrange(1 << 16)
        if rng.random() < 0.4:
            r = -1 - r                   # the kind of record first, so that rare ones are hit too
        if k == 'field':
            off = rng.choice([rng.randrange(4), rng.randrange(12), rng.randrange(30), rng.randrange(200), rng.randrange(10000)])
            v = rng.choice(VALUES) if rng.random() < 0.7 else bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 4]))).hex()
            out.append([k, r, off, v])
        elif k == 'len':
            out.append([k, r, rng.choice([0, 1, 2, 3, 4, 8, 0xFFFF, 0x2020, rng.randrange(65536), rng.randrange(64)])])
        elif k == 'code':
            out.append([k, r, rng.choice([0x0A, 0x809, 0x3C, 0x85, 0x18, 0xFC, 0x3C, 0x06, 0x203, 0x42, 0x22, 0x5D, 0x1B6, 0x1C, 0x31, 0x41E, 0xE0, 0x17,
                                          0x2F, 0x8F, 0x8E, 0x1AE, rng.randrange(65536)])])
        elif k in ('drop', 'dup'):
            out.append([k, r])
        elif k == 'swap':
            out.append([k, r, rng.randrange(1 << 16)])
        else:
            out.append([k, r, rng.choice([1, 1, 2, 3, 4, 6, 20])])
    return out


def apply(data, ops):
    b = bytearray(data)
    for op in ops:
        n = len(b)
        if not n:
            break
        k = op[0]
        if k == 'flip':
            b[op[1] % n] ^= 1 << (op[2] & 7)
        elif k in ('set', 'rand'):
            v = bytes.fromhex(op[2])[:max(0, n - op[1] % n)]
            b[op[1] % n:op[1] % n + len(v)] = v
        elif k == 'zero':
            p = op[1] % n
            if op[2] >= 512:
                p -= p % 512
            m = min(op[2], n - p)
            b[p:p + m] = bytes([op[3]]) * m
        elif k in ('swap', 'copy'):
            m = op[1]
            cnt = n // m
            if cnt > 1:
                a, c = op[2] % cnt * m, op[3] % cnt * m
                x, y = bytes(b[a:a + m]), bytes(b[c:c + m])
                if k == 'swap':
                    b[a:a + m], b[c:c + m] = y, x
                else:
                    b[a:a + m] = y
        elif k == 'cut':
            del b[op[1] % n:]
        elif k == 'del':
            p = op[1] % n
            del b[p:p + op[2]]
        elif k == 'ins':
            p = op[1] % n
            b[p:p] = bytes.fromhex(op[2])
    return bytes(b)


def apply_rec(stream, ops, base=0, end=None, keep_size=False):
    """Damage fields of records between base and end.  keep_size: the region keeps its place and length."""
    end = len(stream) if end is None else end
    recs = [bytearray(stream[p:min(end, p + 4 + n)]) for p, n in records(stream, base, end)]
    if not recs:
        return bytes(stream)
    used = sum(map(len, recs))
    rest = stream[base + used:end]
    for op in ops:
        if not recs:
            break
        i = op[1] % len(recs)
        if op[1] < 0:
            x = -1 - op[1]
            codes = sorted(set(bytes(q[:2]) for q in recs))
            code = codes[x % len(codes)]
            of = [j for j, q in enumerate(recs) if q[:2] == code]
            i = of[x // 256 % len(of)]
        r = recs[i]
        k = op[0]
        if k == 'field':
            if len(r) > 4:
                o = 4 + op[2] % (len(r) - 4)
                v = bytes.fromhex(op[3])[:len(r) - o]
                r[o:o + len(v)] = v
        elif k == 'len':
            r[2:4] = struct.pack('<H', op[2])
        elif k == 'code':
            r[0:2] = struct.pack('<H', op[2])
        elif k == 'drop':
            del recs[i]
        elif k == 'dup':
            recs.insert(i, bytearray(r))
        elif k == 'swap':
            j = op[2] % len(recs)
            recs[i], recs[j] = recs[j], recs[i]
        elif k == 'short':
            m = min(op[2], len(r) - 4)
            if m > 0:
                del r[-m:]
                r[2:4] = struct.pack('<H', len(r) - 4)
        elif k == 'long':
            r += bytes(op[2])
            r[2:4] = struct.pack('<H', (len(r) - 4) & 0xFFFF)
    mid = b''.join(bytes(r) for r in recs) + rest
    if keep_size:
        n = end - base
        mid = mid[:n] + bytes(max(0, n - len(mid)))
    return stream[:base] + mid + stream[end:]


HDR = [(0, 8), (24, 2), (26, 2), (28, 2), (30, 2), (32, 2), (44, 4), (48, 4), (56, 4), (60, 4), (64, 4), (68, 4), (72, 4), (76, 4), (80, 4), (508, 4)]
DIR = [(0, 2), (64, 2), (66, 1), (67, 1), (68, 4), (72, 4), (76, 4), (116, 4), (120, 4)]


def gen_ole(rng, n=None):
    """damages to entries of the container's own structures"""
    out = []

    def v():
        return rng.choice([-1, -2, -3, -4, -5, 0, 1, 2, 3, 5, rng.randrange(60), rng.randrange(60), rng.randrange(60), rng.randrange(1 << 31), 0x7FFFFFFF,
                           -0x80000000, 1000, 4096, 65535])
    for _ in range(n or rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice(['hdr', 'dir', 'dir', 'sat', 'sat', 'sat', 'ssat', 'msatx'])
        if k in ('hdr', 'dir'):
            out.append([k, rng.randrange(1 << 12), rng.randrange(64), v()])
        else:
            out.append([k, rng.randrange(1 << 16), v()])
    return out


def apply_ole(data, im, ops):
    b = bytearray(data)

    def put(off, size, val):
        if off + size <= len(b):
            b[off:off + size] = (val & ((1 << (8 * size)) - 1)).to_bytes(size, 'little')
    ss = im.ss
    nent = ss // 4
    for op in ops:
        k = op[0]
        if k == 'hdr':
            off, size = HDR[op[2] % len(HDR)]
            put(off, size, op[3])
        elif k == 'dir':
            ids = im.place['dir']
            per = ss // 128
            e = op[1] % im.nentries if op[1] % 3 else im.dir_index
            off, size = DIR[op[2] % len(DIR)]
            put(im.base + ids[e // per] * ss + e % per * 128 + off, size, op[3])
        else:
            ids = im.place.get(k) or []
            if ids:
                e = op[1] % (len(ids) * nent)
                if k == 'sat':
                    e = op[1] % (im.total + 3)
                elif k == 'ssat':
                    e = op[1] % 80
                if e // nent < len(ids):
                    put(im.base + ids[e // nent] * ss + e % nent * 4, 4, op[2])
    return bytes(b)
