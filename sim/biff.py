"""The simulated writer: turns a JSON workbook description into a BIFF stream, and the
reference model: says what a reader of that workbook must report.

The model never looks at how xlrd decodes anything; the description holds the *meaning*
(a cell is the number 3.5, a border style is 2), the writer packs it into records, and
expect() restates the meaning in the form observe.py uses for what xlrd reports.
"""
import struct

P = struct.pack


class InvalidCase(Exception):
    """The (shrunk) case is not something a writer could produce."""


def req(cond, what='invalid workbook description'):
    if not cond:
        raise InvalidCase(what)


CODEPAGE_ENC = {1252: 'cp1252', 1251: 'cp1251', 1250: 'cp1250', 1253: 'cp1253', 932: 'cp932', 437: 'cp437',
                10000: 'mac_roman', 32768: 'mac_roman', 32769: 'cp1252', 10007: 'mac_cyrillic', 949: 'cp949', 936: 'cp936',
                10006: 'mac_greek', 10029: 'mac_latin2', 10079: 'mac_iceland', 10081: 'mac_turkish', 1254: 'cp1254', 1255: 'cp1255', 1257: 'cp1257',
                874: 'cp874', 950: 'cp950', 866: 'cp866', 850: 'cp850', 1361: 'cp1361'}


def rec(code, data=b''):
    req(len(data) <= 0xFFFF, 'record too long')
    return P('<HH', code, len(data)) + data


def units(s):
    return len(s.encode('utf-16-le')) // 2


def is_latin1(s):
    return all(ord(c) < 256 for c in s)


def ustr(s, lenlen=2, wide=None):
    """BIFF8 unicode string."""
    if wide is None or not is_latin1(s):
        wide = not is_latin1(s)
    n = units(s)
    req(n < (1 << (8 * lenlen)))
    head = P('<B' if lenlen == 1 else '<H', n)
    if wide:
        return head + b'\x01' + s.encode('utf-16-le')
    return head + b'\x00' + s.encode('latin-1')


def bstr(s, enc, lenlen=1):
    b = encode(s, enc)
    req(len(b) < (1 << (8 * lenlen)))
    return P('<B' if lenlen == 1 else '<H', len(b)) + b


def encode(s, enc):
    try:
        return s.encode(enc)
    except UnicodeEncodeError:
        raise InvalidCase('text not encodable')


def enc_of(wb):
    if wb['v'] >= 80:
        return 'utf_16_le'
    cp = wb.get('cp')
    return CODEPAGE_ENC[cp] if cp is not None else 'iso-8859-1'


# ---------------------------------------------------------------- split text (BIFF8)

class ChunkWriter(object):
    """Lays text and fixed-size atoms into a chain of record bodies.

    plan: list of record body capacities, used in turn and cycled.  A boundary may fall
    anywhere Excel's rules allow; after a boundary inside text a fresh width byte is
    written, chosen from `wide` choices."""

    def __init__(self, plan, first_extra=0):
        self.plan = plan or [8224]
        self.k = 0
        self.bodies = []
        self.cur = bytearray()
        self.stats = {'split_text': 0, 'split_runs': 0, 'split_pho': 0, 'split_between': 0, 'width_change': 0, 'split_surrogate': 0}

    def cap(self):
        # (the first string of a table starts in the same record as the table's head)
        return max(12 if self.k else 24, self.plan[self.k % len(self.plan)])

    def room(self):
        return self.cap() - len(self.cur)

    def flush(self):
        self.bodies.append(bytes(self.cur))
        self.cur = bytearray()
        self.k += 1

    def finish(self):
        self.bodies.append(bytes(self.cur))
        self.cur = bytearray()
        return self.bodies

    def atom(self, b, stat=None):
        if len(b) > self.room():
            if stat and len(self.cur):
                self.stats[stat] += 1
            self.flush()
        self.cur += b

    def blob(self, b, stat=None):
        pos = 0
        while pos < len(b):
            r = self.room()
            if r <= 0:
                if stat:
                    self.stats[stat] += 1
                self.flush()
                r = self.room()
            self.cur += b[pos:pos + r]
            pos += r

    def text(self, s, wide, choose):
        """wide: width of the first piece (already announced in the header).
        choose(k) -> prefer wide for the k-th following piece."""
        u = s.encode('utf-16-le')
        n = len(u) // 2
        pos = 0
        piece = 0
        while True:
            w = 2 if wide else 1
            fit = max(0, self.room()) // w
            take = min(n - pos, fit)
            if not wide:
                # only as far as the characters are one byte wide
                j = pos
                while j < pos + take and u[2 * j + 1] == 0:
                    j += 1
                take = j - pos
            seg = u[2 * pos:2 * (pos + take)]
            self.cur += seg if wide else seg[::2]
            pos += take
            if pos == n:
                return
            # a boundary inside text
            self.stats['split_text'] += 1
            if pos and 0xD8 <= u[2 * pos - 1] <= 0xDB:
                self.stats['split_surrogate'] += 1
            self.flush()
            nxt_wide = u[2 * pos + 1] != 0
            new = True if nxt_wide else bool(choose(piece))
            if new != wide:
                self.stats['width_change'] += 1
            wide = new
            self.cur += b'\x01' if wide else b'\x00'
            piece += 1


def write_sst(strings, plan, total=None, fill=0):
    """fill: that many empty strings precede the given ones (so their indexes grow)."""
    req(0 <= fill < 100000)
    if fill > 100:
        plan = None
    cw = ChunkWriter(plan)
    cw.cur += P('<ii', total if total is not None else len(strings) + fill, len(strings) + fill)
    for _ in range(fill):
        cw.atom(b'\0\0\0', 'split_between')
    for s in strings:
        t = s['t']
        n = units(t)
        req(n < 65536)
        runs = s.get('rich') or []
        pho = s.get('pho') or 0
        u = t.encode('utf-16-le')
        wide = bool(s.get('w')) or (not is_latin1(t) and not (s.get('brk') and u[1] == 0))
        opts = (1 if wide else 0) | (8 if runs else 0) | (4 if pho else 0) | (s.get('resv', 0) & 0xF2)
        head = P('<HB', n, opts)
        if runs:
            head += P('<H', len(runs))
        if pho:
            head += P('<i', pho)
        cw.atom(head, 'split_between')
        alt = s.get('alt') or []
        cw.text(t, wide, lambda k, alt=alt: alt[k % len(alt)] if alt else wide)
        for p, f in runs:
            cw.atom(P('<HH', p, f), 'split_runs')
        if pho:
            cw.blob(bytes((17 * i + 3) & 255 for i in range(pho)), 'split_pho')
    bodies = cw.finish()
    out = rec(0xFC, bodies[0]) + b''.join(rec(0x3C, b) for b in bodies[1:])
    return out, cw.stats, len(bodies)


# ---------------------------------------------------------------- cells

def rk_value(raw):
    """The meaning of a 32-bit RK number, from the file format documentation."""
    if raw & 2:
        v = raw >> 2
        if v & 0x20000000:
            v -= 0x40000000
        d = float(v)
        if raw & 1:
            return v / 100.0
        return d
    d = struct.unpack('<d', P('<Q', (raw & 0xFFFFFFFC) << 32))[0]
    if raw & 1:
        d = d / 100.0
    return d


def hexd(h):
    return struct.unpack('<d', bytes.fromhex(h))[0]


DATE_FORMATS = ['dd/mm/yyyy', 'h:mm:ss', 'yyyy\\-mm\\-dd', 'd-mmm-yy', 'm/d/yy h:mm', '[h]:mm:ss', 'mm:ss', 'hh\\hmm\\mss\\s',
                'dddd, mmmm dd, yyyy', '"day "d', 'MM/YY', 'd.m.yy', '[$-409]h:mm\\ AM/PM']
NUMBER_FORMATS = ['0.00', '#,##0.000', '0%', '"m"0', '0.0E+00', '# ??/??', '$#,##0_);[Red]($#,##0)', '0;[Blue]-0', '[Red]0.0', '#,##0.00\\ "d"']
PLAIN_FORMATS = ['General', 'GENERAL', '@', '0.00E+00', '##0.0E+0']
BUILTIN_DATE = list(range(14, 23)) + list(range(27, 37)) + [45, 46, 47] + list(range(50, 59)) + list(range(71, 82))
BUILTIN_NUM = list(range(14)) + list(range(37, 45)) + [48, 49] + list(range(59, 63)) + list(range(67, 71))
# the built-in number formats of the United States edition
BUILTIN_STRINGS = {
    0: 'General', 1: '0', 2: '0.00', 3: '#,##0', 4: '#,##0.00', 5: '$#,##0_);($#,##0)', 6: '$#,##0_);[Red]($#,##0)',
    7: '$#,##0.00_);($#,##0.00)', 8: '$#,##0.00_);[Red]($#,##0.00)', 9: '0%', 10: '0.00%', 11: '0.00E+00', 12: '# ?/?', 13: '# ??/??',
    14: 'm/d/yy', 15: 'd-mmm-yy', 16: 'd-mmm', 17: 'mmm-yy', 18: 'h:mm AM/PM', 19: 'h:mm:ss AM/PM', 20: 'h:mm', 21: 'h:mm:ss',
    22: 'm/d/yy h:mm', 37: '#,##0_);(#,##0)', 38: '#,##0_);[Red](#,##0)', 39: '#,##0.00_);(#,##0.00)', 40: '#,##0.00_);[Red](#,##0.00)',
    41: '_(* #,##0_);_(* (#,##0);_(* "-"_);_(@_)', 42: '_($* #,##0_);_($* (#,##0);_($* "-"_);_(@_)',
    43: '_(* #,##0.00_);_(* (#,##0.00);_(* "-"??_);_(@_)', 44: '_($* #,##0.00_);_($* (#,##0.00);_($* "-"??_);_(@_)',
    45: 'mm:ss', 46: '[h]:mm:ss', 47: 'mm:ss.0', 48: '##0.0E+0', 49: '@'}
# the default palette of Excel 97; the one before it differs in one colour, the first had 16
PALETTE8 = [[int(c[i:i + 2], 16) for i in (0, 2, 4)] for c in (
    '000000 FFFFFF FF0000 00FF00 0000FF FFFF00 FF00FF 00FFFF 800000 008000 000080 808000 800080 008080 C0C0C0 808080 9999FF 993366 FFFFCC '
    'CCFFFF 660066 FF8080 0066CC CCCCFF 000080 FF00FF FFFF00 00FFFF 800080 800000 008080 0000FF 00CCFF CCFFFF CCFFCC FFFF99 99CCFF FF99CC '
    'CC99FF FFCC99 3366FF 33CCCC 99CC00 FFCC00 FF9900 FF6600 666699 969696 003366 339966 003300 333300 993300 993366 333399 333333').split()]


def colours(wb):
    v = wb['v']
    p = PALETTE8[:] if v >= 50 else PALETTE8[:16]
    if 50 <= v < 80:
        p[39] = [0xE3] * 3
    n = len(p)
    for i, x in enumerate(wb.get('palette') or []):
        p[i] = list(x)
    m = {str(i): x for i, x in enumerate(PALETTE8[:8] + p)}
    m.update({str(n + 8): None, str(n + 9): None, '81': None, '32767': None})
    return m


_ISDATE = dict([(f, True) for f in DATE_FORMATS] + [(f, False) for f in NUMBER_FORMATS + PLAIN_FORMATS])


def xf_is_date(wb, xfi):
    """Does a number carrying extended format xfi show as a date?"""
    v = wb['v']
    if v == 20:
        return fmt_is_date(wb, wb['attrs'][xfi][1] & 0x3F)
    xfs = wb['xfs']
    req(xfi < len(xfs), 'xf index')
    return fmt_is_date(wb, xfs[xfi]['fmt'])


def fmt_is_date(wb, key):
    if wb['v'] >= 50:
        for k, s in reversed(wb['formats']):
            if k == key:
                return isdate(wb, s)
        if key in wb.get('unkfmt', ()):
            return False                 # the file does not say what it is
        req(key in BUILTIN_DATE or key in BUILTIN_NUM, 'format key')
        return key in BUILTIN_DATE
    if wb.get('unkfmt') and key >= len(wb['formats']) and wb['v'] >= 30:
        return False
    req(key < len(wb['formats']), 'format index')
    return isdate(wb, wb['formats'][key][1])


def isdate(wb, s):
    """by construction: a fixed list, or a string made by gen.fmt_string"""
    made = wb.get('isdate', {})
    req(s in made or s in _ISDATE)
    return bool(made[s]) if s in made else _ISDATE[s]


def fmt_known(wb, key):
    if wb['v'] < 30 or not wb.get('unkfmt'):
        return True
    if wb['v'] < 50:
        return key < len(wb['formats'])
    return key not in wb['unkfmt'] or any(k == key for k, _ in wb['formats'])


class SheetWriter(object):
    def __init__(self, wb, sh, out_stats):
        self.wb, self.sh, self.v = wb, sh, wb['v']
        self.enc = enc_of(wb)
        self.st = out_stats
        self.ixfe = None

    def attr(self, xf):
        """BIFF2 3-byte cell attribute."""
        if self.v == 20:
            a = self.wb['attrs'][xf]
            return bytes([a[0] & 0xC0, a[1], a[2]])
        req(xf < len(self.wb['xfs']))
        fmtbyte = self.wb['xfs'][xf]['fmt'] & 0x3F
        if xf >= 63 or (self.sh.get('ixfe') and xf % 2):
            pre = b''
            if self.ixfe != xf:
                pre = rec(0x44, P('<H', xf))
                self.ixfe = xf
            self.pre = pre
            return bytes([0x3F, fmtbyte, 0])
        return bytes([xf, fmtbyte, 0])

    def loc(self, r, c, xf):
        """row, column, format reference: the common head of every cell record."""
        self.pre = b''
        req(0 <= r < (65536 if self.v >= 80 else 16384) and 0 <= c < 256)
        if self.v <= 21:
            return P('<HH', r, c) + self.attr(xf)
        req(0 <= xf < len(self.wb['xfs']), 'xf index')
        return P('<HHH', r, c, xf)

    def out(self, code, body):
        return self.pre + rec(code, body)

    def formula(self, head, result, flags=0):
        if self.v <= 21:
            return self.pre + rec(0x06, head + result + b'\x00' + b'\x03\x1e\x01\x00')
        code = {30: 0x206, 40: 0x406, 45: 0x406}.get(self.v, 0x06)
        code = self.sh.get('fcode', code) if self.v >= 50 else code
        body = head + result + P('<H', flags)
        if self.v >= 50:
            body += b'\0\0\0\0'
        return self.pre + rec(code, body + P('<H', 3) + b'\x1e\x01\x00')

    def item(self, it):
        v = self.v
        k = it[0]
        if k == 'num':
            return self.out(3 if v <= 21 else 0x203, self.loc(it[1], it[2], it[3]) + bytes.fromhex(it[4]) + (
                bytes.fromhex(it[5]) if len(it) > 5 and v > 21 else b''))
        if k == 'int':
            req(v <= 21)
            return self.out(2, self.loc(it[1], it[2], it[3]) + P('<H', it[4]))
        if k == 'rk':
            req(v >= 30)
            return self.out(0x27E, self.loc(it[1], it[2], it[3]) + P('<I', it[4]))
        if k == 'mulrk':
            req(v >= 50 and it[3] and it[2] + len(it[3]) <= 256)
            for x, _ in it[3]:
                req(x < len(self.wb['xfs']))
            return rec(0xBD, P('<HH', it[1], it[2]) + b''.join(P('<HI', x, raw) for x, raw in it[3]) + P('<H', it[2] + len(it[3]) - 1))
        if k == 'lab':
            h = self.loc(it[1], it[2], it[3])
            if v <= 21:
                return self.out(4, h + bstr(it[4], self.enc, 1))
            if v < 80:
                return rec(0x204, h + bstr(it[4], self.enc, 2))
            q = it[6] if len(it) > 6 else None
            if q == 'noopt' and not it[4]:
                return rec(0x204, h + b'\0\0')      # an empty string without its flag byte
            b = ustr(it[4], 2, it[5] if len(it) > 5 else None)
            if q in ('rich', 'pho', 'both'):
                rt, ph = q != 'pho', q != 'rich'
                b = b[:2] + bytes([b[2] | 8 * rt | 4 * ph]) + P('<H', 2) * rt + P('<i', 6) * ph + b[3:] + b'\0\0\1\0\2\0\2\0' * rt + b'\1\0\2\0\0\0' * ph
            return rec(0x204, h + b)
        if k == 'rstr':
            req(v >= 50)
            h = self.loc(it[1], it[2], it[3])
            if v < 80:
                return rec(0xD6, h + bstr(it[4], self.enc, 2) + P('<B', len(it[5])) + b''.join(P('<BB', a, b) for a, b in it[5]))
            return rec(0xD6, h + ustr(it[4], 2) + P('<H', len(it[5])) + b''.join(P('<HH', a, b) for a, b in it[5]))
        if k == 'sst':
            req(v >= 80 and 0 <= it[4] < len(self.wb['sst']))
            return rec(0xFD, self.loc(it[1], it[2], it[3]) + P('<i', it[4] + self.wb.get('sst_fill', 0)))
        if k in ('bool', 'err'):
            h = self.loc(it[1], it[2], it[3])
            body = h + P('<BB', it[4], int(k == 'err'))
            if v > 21 and len(it) > 5 and it[5]:
                body += b'\0'            # OOo writes nine bytes
            return self.out(5 if v <= 21 else 0x205, body)
        if k == 'blank':
            return self.out(1 if v <= 21 else 0x201, self.loc(it[1], it[2], it[3]))
        if k == 'mulblank':
            req(v >= 50 and it[3] and it[2] + len(it[3]) <= 256)
            for x in it[3]:
                req(x < len(self.wb['xfs']))
            return rec(0xBE, P('<HH', it[1], it[2]) + b''.join(P('<H', x) for x in it[3]) + P('<H', it[2] + len(it[3]) - 1))
        if k == 'fnum':
            req(bytes.fromhex(it[4])[6:] != b'\xff\xff')
            return self.formula(self.loc(it[1], it[2], it[3]), bytes.fromhex(it[4])) + self.companion(it[5] if len(it) > 5 else None, it[1], it[2])
        if k == 'fbool':
            return self.formula(self.loc(it[1], it[2], it[3]), bytes([1, 0, it[4], 0, 0, 0, 255, 255])) + self.companion(it[5] if len(it) > 5 else None, it[1], it[2])
        if k == 'ferr':
            return self.formula(self.loc(it[1], it[2], it[3]), bytes([2, 0, it[4], 0, 0, 0, 255, 255])) + self.companion(it[5] if len(it) > 5 else None, it[1], it[2])
        if k == 'fempty':
            return self.formula(self.loc(it[1], it[2], it[3]), bytes([3, 0, 0, 0, 0, 0, 255, 255]))
        if k == 'fstr':
            pre = it[6] if len(it) > 6 else None
            out = self.formula(self.loc(it[1], it[2], it[3]), bytes([0, 0, 0, 0, 0, 0, 255, 255]), 8 if pre == 'shr' else 0)
            out += self.companion(pre, it[1], it[2]) + self.string(it[4], it[5] if len(it) > 5 else None)
            return out
        if k == 'condfmt':
            req(v >= 80)
            return self.condfmt(it[1])
        if k == 'obj':
            return self.obj(it[1])
        if k == 'foreign':
            req(it[1] not in NOT_FOREIGN)
            return rec(it[1], bytes.fromhex(it[2]))
        if k == 'bulk':                    # much that is of no interest
            req(0 < it[1] < 6000)
            return rec(0xC5, bytes(8224 if v >= 80 else 2080)) * it[1]
        if k == 'dim':
            return self.dim(it[1], it[2])
        if k == 'country':                 # BIFF 5 and 7 repeat it in each sheet
            req(v >= 50)
            return rec(0x8C, P('<HH', *it[1]))
        if k == 'chart':
            req(v >= 50)
            inner = b''.join(rec(code, bytes.fromhex(h)) for code, h in it[1])
            for code, _ in it[1]:
                req(code != 0x0A)
            return rec(0x809, P('<HH', 0x600 if v >= 80 else 0x500, 0x20) + b'\0' * (12 if v >= 80 else 4)) + inner + rec(0x0A)
        return self.fmt_item(it)

    def companion(self, pre, r, c):
        """the record a writer puts right after the FORMULA record of an array, shared or table formula"""
        v = self.v
        if pre == 'array' and v >= 30:
            return rec(0x221, P('<HHBBH4xH', r, r, c, c, 0, 3) + b'\x1e\x01\x00')
        if pre == 'shr' and v >= 50:
            return rec(0x4BC, P('<HHBBBBH', r, r, c, c, 0, 1, 3) + b'\x1e\x01\x00')
        if pre == 'table' and v >= 30:
            return rec(0x236, P('<HHBBHHHHH', r, r, c, c, 0, 0, 0, 0, 0))
        if pre == 'table2' and v <= 21:
            return rec(0x36, P('<HHBBBBHH', r, r, c, c, 0, 0, 0, 0))
        if pre == 'table3' and v <= 21:
            return rec(0x37, P('<HHBBBBHHHH', r, r, c, c, 0, 0, 0, 0, 0, 0))
        if pre == 'array2' and v <= 21:
            return rec(0x21, P('<HHBBBB', r, r, c, c, 0, 3) + b'\x1e\x01\x00')
        return b''

    def dim(self, nr, nc):
        if self.v <= 21:
            return rec(0x00, P('<HHHH', 0, nr, 0, nc))
        if self.v < 80:
            return rec(0x200, P('<HHHHH', 0, min(nr, 65535), 0, nc, 0))
        return rec(0x200, P('<iiHHH', 0, nr, 0, nc, 0))

    def string(self, t, plan):
        v = self.v
        plan = plan or {}
        if v >= 80:
            n = units(t)
            req(n < 65536)
            wide = bool(plan.get('w')) or not is_latin1(t)
            cw = ChunkWriter(plan.get('sizes') or [8224])
            cw.cur += P('<HB', n, int(wide))
            alt = plan.get('alt') or []
            cw.text(t, wide, lambda k: alt[k % len(alt)] if alt else wide)
            bodies = cw.finish()
            for kk, vv in cw.stats.items():
                self.st[kk] = self.st.get(kk, 0) + vv
        else:
            b = encode(t, self.enc)
            lenlen = 2 if v >= 30 else 1
            req(len(b) < (1 << (8 * lenlen)))
            body = P('<H' if lenlen == 2 else '<B', len(b)) + b
            bodies = []
            sizes = plan.get('sizes') or [2080]
            i = 0
            while body or not bodies:
                n = max(4, sizes[i % len(sizes)])
                bodies.append(body[:n])
                body = body[n:]
                i += 1
            if len(bodies) > 1:
                self.st['split_text'] = self.st.get('split_text', 0) + len(bodies) - 1
        if len(bodies) > 1:
            self.st['string_continue'] = self.st.get('string_continue', 0) + 1
        return rec(0x07 if v <= 21 else 0x207, bodies[0]) + b''.join(rec(0x3C, b) for b in bodies[1:])

    # ------------------------------------------------ formatting and annotations
    def fmt_item(self, it):
        v, k = self.v, it[0]
        d = it[1] if len(it) > 1 else None
        if k == 'row':
            req(v >= 30)
            bits1 = d['height'] | (d['defh'] << 15)
            bits2 = (d['ol'] | d['olse'] << 4 | d['hidden'] << 5 | d['hm'] << 6 | d['hasxf'] << 7 | 0x100 |
                     d['xf'] << 16 | d['above'] << 28 | d['below'] << 29)
            return rec(0x208, P('<HHHHHHI', d['r'], 0, 0, bits1, 0, 0, bits2))
        if k == 'col':
            req(v >= 30)
            flags = d['hidden'] | d['b1'] << 1 | d['ol'] << 8 | d['collapsed'] << 12
            return rec(0x7D, P('<HHHHH', d['a'], d['b'], d['width'], d['xf'], flags) + b'\0\0' * (v >= 50))
        if k == 'merge':
            return rec(0xE5, P('<H', len(d)) + b''.join(P('<HHHH', a, b - 1, c, e - 1) for a, b, c, e in d))
        if k == 'labelranges':
            req(v >= 80)
            return rec(0x15F, b''.join(P('<H', len(l)) + b''.join(P('<HHHH', a, b - 1, c, e - 1) for a, b, c, e in l)
                                       for l in (d['rows'], d['cols'])))
        if k == 'hpb':
            if v < 80:
                return rec(0x1B, P('<H', len(d)) + b''.join(P('<H', x[0]) for x in d))
            return rec(0x1B, P('<H', len(d)) + b''.join(P('<HHH', *x) for x in d))
        if k == 'vpb':
            if v < 80:
                return rec(0x1A, P('<H', len(d)) + b''.join(P('<H', x[0]) for x in d))
            return rec(0x1A, P('<H', len(d)) + b''.join(P('<HHH', *x) for x in d))
        if k == 'rowb2':
            req(v <= 21)
            self.pre = b''
            a = self.attr(d['xf']) if d['hasxf'] else b'\0\0\0'
            n = {0: 13, 1: 16, 2: 18}[d['len']]
            req(n > 13 or not d['hasxf'])
            req(v == 21 or not d['hasxf'])
            tail = P('<H', d['xf']) if d['hasxf'] else b'\0\0'
            if n == 18 and d['hasxf']:
                a = b'\x01\x02\x03'          # not to be relied upon
                self.pre = b''
            req(not self.pre)
            return rec(0x08, (P('<HHHHHBH', d['r'], 0, 256, d['height'] | d['defh'] << 15, 0, d['hasxf'] | d.get('junk', 0) << 1, 0) + a + tail)[:n])
        if k == 'colw':
            req(v <= 21)
            return rec(0x24, P('<BBH', d['a'], d['b'], d['width']))
        if k == 'coldef':
            req(v == 21)
            self.pre = b''
            a = b''.join(self.attr(x) for x in d['xfs'])
            req(not self.pre and d['a'] + len(d['xfs']) <= 256)
            return rec(0x20, P('<HH', d['a'], d['a'] + len(d['xfs'])) + a + b'\0\0')
        if k == 'win2b2':
            req(v <= 21)
            return rec(0x3E, bytes(d['bits'][:5]) + P('<HHBBBBB', d['r'], d['c'], d['bits'][5], d['rgb'][0], d['rgb'][1], d['rgb'][2], 0))
        if k == 'win2':
            req(v >= 30)
            o = 0
            for i, b in enumerate(d['bits']):
                o |= (b & 1) << i
            if v >= 80:
                return rec(0x23E, P('<HHHHHHHI', o, d['r'], d['c'], d['grid'], 0, d['pbz'], d['nz'], 0))
            return rec(0x23E, P('<HHHBBBB', o, d['r'], d['c'], d['rgb'][0], d['rgb'][1], d['rgb'][2], 0))
        if k == 'scl':
            return rec(0xA0, P('<HH', d[0], d[1]))
        if k == 'pane':
            return rec(0x41, P('<HHHHB', *d) + b'\0' * (v >= 50))
        if k == 'defrow':
            req(v >= 30)
            bits = d['mismatch'] | d['hidden'] << 1 | d['above'] << 2 | d['below'] << 3
            if d.get('short'):
                req(not bits)
                return rec(0x225, P('<H', d['h']))
            return rec(0x225, P('<HH', bits, d['h']))
        if k == 'defcol':
            return rec(0x55, P('<H', d))
        if k == 'stdw':
            return rec(0x99, P('<H', d) + bytes.fromhex(it[2] if len(it) > 2 else ''))
        if k == 'odd':                       # of the wrong size or out of range: without effect
            b = bytes.fromhex(d[1])
            w = int.from_bytes(b[:2], 'little')
            req(d[0] == 0x24 and v <= 21 and len(b) == 4 and b[0] > b[1] or
                d[0] == 8 and v <= 21 and len(b) >= 13 and w >= 16384 or d[0] == 0x208 and v >= 30 and v < 80 and len(b) == 16 and w >= 16384)
            return rec(d[0], b)
        if k == 'gcw':
            req(len(d) == 256)
            b = bytearray(32)
            for i, x in enumerate(d):
                b[i // 8] |= (x & 1) << (i % 8)
            return rec(0xAB, b'\x20\x00' + bytes(b))
        if k == 'note':
            return self.note(d)
        if k == 'notes8':
            return self.notes8(d)
        if k == 'hlink':
            return self.hlink(d)
        raise InvalidCase('item kind %r' % (k,))

    def note(self, d):
        """BIFF <= 7 comment: NOTE plus continuation NOTEs."""
        req(self.v < 80)
        b = encode(d['text'], self.enc)
        req(len(b) < 65536)
        sizes = d.get('sizes') or [2048]
        pieces, i = [], 0
        rest = b
        while rest or not pieces:
            n = max(1, sizes[i % len(sizes)])
            pieces.append(rest[:n])
            rest = rest[n:]
            i += 1
        out = rec(0x1C, P('<HHH', d['r'], d['c'], len(b)) + pieces[0])
        for pc in pieces[1:]:
            out += rec(0x1C, P('<HHH', 0xFFFF, 0, len(pc)) + pc)
        if len(pieces) > 1:
            self.st['note_continue'] = self.st.get('note_continue', 0) + 1
        return out

    def notes8(self, d):
        """BIFF8 comments: OBJ + TXO + CONTINUEs per object, NOTEs afterwards (or interleaved)."""
        req(self.v >= 80)
        objs, notes = b'', b''
        for n in d['list']:
            oid = n['oid']
            if n.get('drawing'):
                objs += rec(0xEC, b'\x0f\x00\x04\xf0' + P('<I', 0))
            objs += rec(0x5D, P('<HHHHH', 0x15, 18, 25, oid, 0x4011) + b'\0' * 12 + P('<HH', 0x0D, 22) + b'\0' * 22 + b'\0\0\0\0')
            if n.get('drawing'):
                objs += rec(0xEC, b'\0\0\x0d\xf0\0\0\0\0')
            t = n['text']
            u = t.encode('utf-16-le')
            nu = len(u) // 2
            runs = n['runs'] + [[nu, 0]] * max(1, n.get('ends', 1)) if nu else []
            objs += rec(0x1B6, P('<HH6xHHH', n.get('opts', 0x212), n.get('rot', 0), nu, 8 * len(runs), 0) + b'\0\0' * bool(n.get('fm')))
            # text pieces
            sizes = n.get('sizes') or [4000]
            alt = n.get('alt') or [0]
            pos = i = 0
            while pos < nu:
                m = max(1, sizes[i % len(sizes)])
                wide = bool(alt[i % len(alt)])
                take = min(m, nu - pos)
                if not wide:
                    j = pos
                    while j < pos + take and u[2 * j + 1] == 0:
                        j += 1
                    if j == pos:
                        wide = True
                    else:
                        take = j - pos
                seg = u[2 * pos:2 * (pos + take)]
                if 0xD8 <= seg[-1] <= 0xDB and wide:
                    self.st['split_surrogate'] = self.st.get('split_surrogate', 0) + 1
                objs += rec(0x3C, (b'\x01' + seg) if wide else (b'\0' + seg[::2]))
                pos += take
                i += 1
            if i > 1:
                self.st['txo_pieces'] = self.st.get('txo_pieces', 0) + 1
            # run pieces
            rs = n.get('rsizes') or [100]
            pos = i = 0
            while pos < len(runs):
                m = max(1, rs[i % len(rs)])
                objs += rec(0x3C, b''.join(P('<HHI', a, b, 0) for a, b in runs[pos:pos + m]))
                pos += m
                i += 1
            if i > 1:
                self.st['txo_run_pieces'] = self.st.get('txo_run_pieces', 0) + 1
            flags = (n['show'] << 1) | (n['rh'] << 7) | (n['ch'] << 8)
            nt = rec(0x1C, P('<HHHH', n['r'], n['c'], flags, oid) + ustr(n['author'], 2, n.get('aw')) + b'\0' * (not n.get('nopad')))
            if d.get('interleave'):
                objs += nt
            else:
                notes = (notes + nt) if not d.get('rev') else (nt + notes)
        return objs + notes

    def condfmt(self, d):
        """conditional formats: the reader only talks about them"""
        rs = d['ranges']
        out = rec(0x1B0, P('<HHHHHH', len(d['cfs']), d.get('recalc', 1), min(r[0] for r in rs), max(r[1] for r in rs) - 1, min(r[2] for r in rs),
                           max(r[3] for r in rs) - 1) + P('<H', len(rs)) + b''.join(P('<HHHH', a, b - 1, c, e - 1) for a, b, c, e in rs))
        for f in d['cfs']:
            f1, f2 = bytes.fromhex(f['f1']), bytes.fromhex(f['f2'])
            flags = 0x003FFFFF | f['font'] << 26 | f['bord'] << 28 | f['patt'] << 29
            out += rec(0x1B1, P('<BBHHI', f['t'], f['op'], len(f1), len(f2), flags) + b'\0\0' + bytes([f.get('fill', 0)]) * (118 * f['font'] + 8 * f['bord'] + 4 * f['patt']) + f1 + f2)
        return out

    def obj(self, d):
        """drawing objects which are not comments"""
        k, oid = d['k'], d.get('oid', 5)
        if self.v < 80 or k == 'antique':
            return rec(0x5D, P('<IHHH', 1, 5, oid, 0) + b'\0' * 24)
        flags = 0x4011
        body = b''
        if k == 'scroll':
            body = P('<HH', 0x0C, 20) + b'\0' * 4 + P('<5H', 1, 0, 100, 1, 10) + b'\0' * 6
        elif k == 'combo':
            flags |= 0x100
            body = P('<HH', 0x0C, 20) + b'\0' * 20 + P('<HH', 0x13, 0x1FEE) + b'\0' * 12
        elif k == 'list':
            body = P('<HH', 0x13, 8) + b'\0' * 8
        elif k == 'group':
            body = P('<HH', 0x06, 2) + b'\0\0'
        elif k == 'macro':
            body = P('<HH', 0x04, 6) + b'\2\0\0\0\0\0'
        elif k == 'pict':
            body = P('<HHH', 0x07, 2, 0xFFFF) + P('<HHH', 0x08, 2, 1)
        end = b'\0' * 4 if k != 'combo' else b''
        out = rec(0x5D, P('<HHHHH', 0x15, 18, {'combo': 20, 'scroll': 17, 'list': 18, 'textbox': 6}.get(k, 8), oid, flags) + b'\0' * 12 + body + end)
        if k == 'textbox':
            t = d['text']
            u = t.encode('utf-16-le')
            n = len(u) // 2
            out += rec(0xEC, b'\0\0\x0d\xf0\0\0\0\0')
            out += rec(0x1B6, P('<HH6xHHH', 0x212, 0, n, 16 if n else 0, 0))
            if n:
                out += rec(0x3C, b'\1' + u) + rec(0x3C, P('<HHIHHI', 0, 0, 0, n, 0, 0))
        return out

    def hlink(self, d):
        req(self.v >= 80)
        o = 0
        body = b''

        def nul(s):
            e = (s + '\0').encode('utf-16-le')
            return P('<L', len(e) // 2) + e
        if d.get('desc') is not None:
            o |= 0x14
            body += nul(d['desc'])
        if d.get('target') is not None:
            o |= 0x80
            body += nul(d['target'])
        kind = d['kind']
        if kind == 'url':
            o |= 3
            e = (d['url'] + '\0').encode('utf-16-le')
            body += bytes.fromhex('E0C9EA79F9BACE118C8200AA004BA90B')
            extra = bytes(24) if d.get('extra') else b''
            body += P('<L', len(e) + len(extra)) + e + extra
        elif kind == 'file':
            o |= 1 | (2 if d.get('abs') else 0)
            body += bytes.fromhex('0303000000000000C000000000000046')
            sp = d['short'].encode('latin-1') + b'\0'
            body += P('<Hi', d['up'], len(sp)) + sp + b'\xff\xff\xad\xde' + bytes(20)
            if d.get('long') is not None:
                e = d['long'].encode('utf-16-le')
                body += P('<i', len(e) + 6) + P('<iH', len(e), 3) + e
            else:
                body += P('<i', 0)
        elif kind == 'other':            # a moniker of another class
            o |= 1
            body += bytes.fromhex('0309000000000000C000000000000046')
            req(d.get('mark') is None)
        elif kind == 'unc':
            o |= 0x103
            body += nul(d['url'])
        elif kind == 'workbook':
            o |= 8
        if d.get('mark') is not None:
            o |= 8
            body += nul(d['mark'])
        out = rec(0x1B8, P('<HHHH', d['r1'], d['r2'], d['c1'], d['c2']) + bytes.fromhex('D0C9EA79F9BACE118C8200AA004BA90B') +
                  b'\x02\0\0\0' + P('<i', o) + body + bytes.fromhex(d.get('junk', '')))
        if d.get('tip') is not None:
            out += rec(0x800, P('<HHHHH', 0x800, d['r1'], d['r2'], d['c1'], d['c2']) + (d['tip'] + '\0').encode('utf-16-le'))
        return out


# record codes the reader gives a meaning to; anything else is foreign
NOT_FOREIGN = set([0x0A, 0x06, 0x206, 0x406, 0x203, 0xFD, 0x204, 0xD6, 0x27E, 0xBD, 0x208, 0x205, 0x7D, 0x55, 0x99, 0xAB, 0x201, 0xBE,
                   0x200, 0x1B8, 0x800, 0x5D, 0xEC, 0x1B6, 0x1C, 0x872, 0x809, 0x409, 0x209, 0x09, 0x8C, 0x15F, 0x221, 0x4BC, 0x1B0, 0x1B1,
                   0x225, 0xE5, 0x23E, 0xA0, 0x41, 0x1B, 0x1A, 0x41E, 0x1E, 0x31, 0x231, 0x293, 0x92, 0x56, 0x443, 0x243, 0x43, 0x22,
                   0x42, 0x2F, 0x5C, 0x44, 3, 2, 4, 5, 1, 0x45, 8, 0x24, 0x20, 0x3E, 0xFC, 0xE0, 0x85, 0x23, 0x17, 0x8E, 0x8F, 0x1AE, 0x18])
FOREIGN_CODES = [0x0C, 0x0D, 0x0E, 0x0F, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x19, 0x1D, 0x26, 0x27, 0x28, 0x29, 0x2A, 0x2B, 0x3D, 0x40,
                 0x4D, 0x51, 0x59, 0x5A, 0x5F, 0x63, 0x80, 0x82, 0x83, 0x84, 0x90, 0x9B, 0x9D, 0xA1, 0xC1, 0xD7, 0xDA, 0xDD, 0xE1, 0xE2, 0xE9,
                 0xEF, 0xFF, 0x13D, 0x160, 0x161, 0x1AF, 0x1B2, 0x1B7, 0x1BC, 0x1BE, 0x1C0, 0x1C1, 0x20B, 0x862, 0x867, 0x868, 0x1234, 0x7777,
                 0x8FF, 0xFFFF, 0x3C]


# ---------------------------------------------------------------- globals

def font_rec(wb, f):
    v, enc = wb['v'], enc_of(wb)
    opts = f['bold'] | f['italic'] << 1 | f['under'] << 2 | f['struck'] << 3 | f['outline'] << 4 | f['shadow'] << 5
    if v >= 50:
        b = P('<HHHHHBBBB', f['height'], opts, f['colour'], f['weight'], f['esc'], f['ul'], f['fam'], f['cs'], 0)
        return rec(0x31, b + (ustr(f['name'], 1, f.get('w')) if v >= 80 else bstr(f['name'], enc, 1)))
    if v >= 30:
        return rec(0x231, P('<HHH', f['height'], opts, f['colour']) + bstr(f['name'], enc, 1))
    return rec(0x31, P('<HH', f['height'], opts & 0xF) + bstr(f['name'], enc, 1)) + rec(0x45, P('<H', f['colour']))


def format_rec(wb, key, s):
    v, enc = wb['v'], enc_of(wb)
    if v >= 80:
        return rec(0x41E, P('<H', key) + ustr(s, 2))
    if v >= 50:
        return rec(0x41E, P('<H', key) + bstr(s, enc, 1))
    if v >= 40:
        return rec(0x41E, P('<H', 0) + bstr(s, enc, 1))
    return rec(0x1E, bstr(s, enc, 1))


def xf_rec(wb, x):
    v = wb['v']
    fl = 0
    for i, b in enumerate(x['flags']):
        fl |= (b & 1) << i
    prot = x['locked'] | x['fhid'] << 1
    tp = prot | x['style'] << 2 | x['lotus'] << 3
    b_ = x['b']
    bg = x['bg']
    if v >= 80:
        brd1 = (b_['ls'] | b_['rs'] << 4 | b_['ts'] << 8 | b_['bs'] << 12 | b_['lc'] << 16 | b_['rc'] << 23 |
                b_['dd'] << 30 | b_['du'] << 31)
        brd2 = b_['tc'] | b_['bc'] << 7 | b_['dc'] << 14 | b_['ds'] << 21 | bg['pat'] << 26
        brd3 = bg['pc'] | bg['bc'] << 7
        return rec(0xE0, P('<HHHBBBBIIH', x['font'], x['fmt'], tp | x['par'] << 4,
                           x['ha'] | x['wrap'] << 3 | x['va'] << 4, x['rot'], x['ind'] | x['shr'] << 4 | x['dir'] << 6,
                           fl << 2, brd1, brd2, brd3))
    orient = {0: 0, 255: 1, 90: 2, 180: 3}.get(x['rot'], 0)
    if v >= 50:
        w1 = bg['pc'] & 0x7F | bg['bc'] << 7 | bg['pat'] << 16 | (b_['bs'] & 7) << 22 | b_['bc'] << 25
        w2 = (b_['ts'] & 7) | (b_['ls'] & 7) << 3 | (b_['rs'] & 7) << 6 | b_['tc'] << 9 | b_['lc'] << 16 | b_['rc'] << 23
        return rec(0xE0, P('<HHHBBII', x['font'], x['fmt'], tp | x['par'] << 4,
                           x['ha'] | x['wrap'] << 3 | x['va'] << 4, orient | fl << 2, w1, w2))
    bg34 = bg['pat'] | (bg['pc'] & 31) << 6 | (bg['bc'] & 31) << 11
    brd34 = ((b_['ts'] & 7) | (b_['tc'] & 31) << 3 | (b_['ls'] & 7) << 8 | (b_['lc'] & 31) << 11 | (b_['bs'] & 7) << 16 |
             (b_['bc'] & 31) << 19 | (b_['rs'] & 7) << 24 | (b_['rc'] & 31) << 27)
    if v >= 40:
        return rec(0x443, P('<BBHBBHI', x['font'], x['fmt'], tp | x['par'] << 4,
                            x['ha'] | x['wrap'] << 3 | (x['va'] & 3) << 4 | orient << 6, fl << 2, bg34, brd34))
    if v == 30:
        return rec(0x243, P('<BBBBHHI', x['font'], x['fmt'], tp, fl << 2, x['ha'] | x['wrap'] << 3 | x['par'] << 4, bg34, brd34))
    if v == 21:
        he = x['ha'] | (b_['ls'] & 1) << 3 | (b_['rs'] & 1) << 4 | (b_['ts'] & 1) << 5 | (b_['bs'] & 1) << 6 | (bg['pat'] & 1) << 7
        return rec(0x43, P('<BBBB', x['font'], 0, x['fmt'] & 0x3F | x['locked'] << 6 | x['fhid'] << 7, he))
    raise InvalidCase('no XF in BIFF 2.0')


def style_rec(wb, s):
    if s.get('bad'):                # as some program writes the style "Normal"
        return rec(0x293, bytes(4))
    if s.get('builtin') is not None:
        return rec(0x293, P('<HBB', 0x8000 | s['xf'], s['builtin'], s['level']))
    if wb['v'] >= 80:
        return rec(0x293, P('<H', s['xf']) + ustr(s['name'], 2))
    return rec(0x293, P('<H', s['xf']) + bstr(s['name'], enc_of(wb), 1))


def palette_rec(pal):
    return rec(0x92, P('<H', len(pal)) + b''.join(P('<BBBB', r, g, b, 0) for r, g, b in pal))


def fit(b, n):
    return b[:n] + bytes(max(0, n - len(b)))


def bof(v, kind, wb=None):
    """kind: 'g' or 's'."""
    b = (wb or {}).get('bof')
    if b:
        n = b['len']
        req(n == 0 or 4 <= n <= 20)
        st = (5 if v >= 50 else 0x100) if kind == 'g' else 0x10
        by = b.get('by') or [0, 0]
        if v >= 50:
            if v == 80:
                by = b.get('by') or [0x0DBB, 0x07CC]
            elif v == 70:
                by = b.get('by') or [0x0DBB, 1996]
                req(by[1] >= 1994 and by[0] not in (2412, 3218, 3321) and (n == 0 or n >= 8))
            else:
                by = wb.get('b5build') or [0x096C, 1993]
            full = P('<HHHHII', 0x600 if v == 80 else 0x500, st, by[0], by[1], 0x41, 6)
            return rec(0x809, fit(full, n or (16 if v == 80 else 8)))
        if b.get('op8') is not None:
            req(b['op8'] in ({40: (0x400,), 45: (0x400,), 30: (0x300,)}.get(v) or (0, 7, 0x200)))
            return rec(0x809, fit(P('<HHHH', b['op8'], st, *by), n or 8))
        op = {45: 0x409, 40: 0x409, 30: 0x209}.get(v) or 9
        return rec(op, fit(P('<HHH', b.get('ver', 0), st, 0), n or (4 if v <= 21 else 6)))
    if v >= 80:
        return rec(0x809, P('<HHHHII', 0x600, 5 if kind == 'g' else 0x10, 0x0DBB, 0x07CC, 0x41, 0x6))
    if v >= 50:
        build, year = (0x0DBB, 1996) if v == 70 else ((wb or {}).get('b5build') or (0x096C, 1993))
        return rec(0x809, P('<HHHH', 0x500, 5 if kind == 'g' else 0x10, build, year))
    if v == 45:
        return rec(0x409, P('<HHH', 0, 0x100 if kind == 'g' else 0x10, 0))
    if v == 40:
        return rec(0x409, P('<HHH', 0, 0x10, 0))
    if v == 30:
        return rec(0x209, P('<HHH', 0, 0x10, 0))
    return rec(0x09, P('<HH', 2, 0x10))


def foreign(lst):
    out = b''
    for code, h in lst or ():
        req(code not in NOT_FOREIGN and code != 0x3C or code == 0x3C)
        out += rec(code, bytes.fromhex(h))
    return out


REFKINDS = ('ref', 'area')


def name_formula(wb, n):
    """Token bytes of a defined name's formula."""
    v = wb['v']
    f = n['f']
    k = f[0]
    if k == 'none':
        return b''
    if k == 'num':
        req(len(f[1]) == 16)
        return b'\x1f' + bytes.fromhex(f[1])
    if k == 'int':
        return b'\x1e' + P('<H', f[1])
    if k == 'str':
        if v >= 80:
            return b'\x17' + ustr(f[1], 1)
        return b'\x17' + bstr(f[1], enc_of(wb), 1)
    if k == 'bool':
        return b'\x1d' + P('<B', f[1])
    if k == 'err':
        return b'\x1c' + P('<B', f[1])
    if k == 'name':
        # tName, reference class, 1-based index
        if v >= 80:
            return b'\x23' + P('<HH', f[1] + 1, 0)
        return b'\x23' + P('<H12x', f[1] + 1)
    if k == 'expr':
        return expr_tokens(wb, f[1], [0])[0]
    if k == 'namex':
        # tNameX: a name reached through a sheet of this workbook, f = [kind, name index, sheetref]
        if v < 80:
            # through the EXTERNSHEET record that stands for this workbook, without a sheet
            own = [i for i, x in enumerate(ext57_list(wb)) if x[0] != 'sheet' and x[1] == 4]
            req(own and f[2] == 'any')
            return b'\x39' + P('<h8xH12x', -1 - own[0], f[1] + 1)
        return b'\x39' + P('<HHH', xti_index(wb, f[2]), f[1] + 1, 0)
    if k in ('union', 'range', 'isect'):
        # f = [kind, [part, part], with a mem token?]
        req(len(f[1]) >= 2)
        out = b''
        for i, part in enumerate(f[1]):
            out += name_formula(wb, {'f': part})
            if i:
                out += {'union': b'\x10', 'range': b'\x11', 'isect': b'\x0f'}[k]
        return (b'\x29' + P('<H', len(out)) if len(f) > 2 and f[2] else b'') + out
    if k in ('ref', 'area', 'relref', 'relarea', 'sum'):
        # f = [kind, sheetref, r1, c1, r2, c2]; relref: r1, c1, flags (1: row, 2: column); relarea: flags for either corner
        fl = (f[4] if len(f) > 4 and isinstance(f[4], int) else 3) if k == 'relref' else f[6] if k == 'relarea' else 0
        req(0 <= fl < 16)
        fl = [(fl >> b & 1) << 15 | (fl >> b >> 1 & 1) << 14 for b in (0, 2)]
        sr = f[1]                       # [s1, s2] all-sheets indexes, or 'del', or 'ext'
        r1, c1 = f[2], f[3]
        if v >= 80:
            ixti = P('<H', xti_index(wb, sr))
            if k == 'ref':
                return b'\x3a' + ixti + P('<HH', r1, c1)
            if k == 'relref':
                return b'\x3a' + ixti + P('<HH', r1, c1 | fl[0])
            return b'\x3b' + ixti + P('<HHHH', r1, f[4], c1 | fl[0], f[5] | fl[1])
        if sr == 'ext':
            head = P('<h8xhh', 1, 0, 0)
        elif sr == 'del':
            head = P('<h8xhh', -1, -1, -1)
        else:
            head = P('<h8xhh', -1, sr[0], sr[1])
        if k == 'ref':
            return b'\x3a' + head + P('<HB', r1, c1)
        if k == 'relref':
            return b'\x3a' + head + P('<HB', r1 | fl[0], c1)
        return b'\x3b' + head + P('<HHBB', r1 | fl[0], f[4] | fl[1], c1, f[5])
    raise InvalidCase('formula kind')


def ext57_list(wb):
    """The EXTERNSHEET records of BIFF 5 and 7."""
    scopes = sorted(set(n['scope'] for n in wb.get('names', ()) if n.get('scope') is not None))
    lst = [['sheet', s] for s in scopes]
    for pos, x in wb.get('ext57', ()):
        lst.insert(min(pos, len(lst)), x)
    return lst


UNARY = {'+': 0x12, '-': 0x13, '%': 0x14}
BINARY = {'+': 3, '-': 4, '*': 5, '/': 6, '^': 7, '&': 8, '<': 9, '<=': 10, '=': 11, '>=': 12, '>': 13, '<>': 14, ' ': 15, ',': 16, ':': 17}
# the worksheet functions of Excel 97 to 2003: number, name, number of arguments (one number: fixed; two: least and most)
FUNCTIONS = """
0 COUNT 0-30; 1 IF 2-3; 2 ISNA 1; 3 ISERROR 1; 4 SUM 0-30; 5 AVERAGE 1-30; 6 MIN 1-30; 7 MAX 1-30; 8 ROW 0-1; 9 COLUMN 0-1; 10 NA 0; 11 NPV
2-30; 12 STDEV 1-30; 13 DOLLAR 1-2; 14 FIXED 2-3; 15 SIN 1; 16 COS 1; 17 TAN 1; 18 ATAN 1; 19 PI 0; 20 SQRT 1; 21 EXP 1; 22 LN 1; 23 LOG10
1; 24 ABS 1; 25 INT 1; 26 SIGN 1; 27 ROUND 2; 28 LOOKUP 2-3; 29 INDEX 2-4; 30 REPT 2; 31 MID 3; 32 LEN 1; 33 VALUE 1; 34 TRUE 0; 35 FALSE 0;
36 AND 1-30; 37 OR 1-30; 38 NOT 1; 39 MOD 2; 40 DCOUNT 3; 41 DSUM 3; 42 DAVERAGE 3; 43 DMIN 3; 44 DMAX 3; 45 DSTDEV 3; 46 VAR 1-30; 47 DVAR
3; 48 TEXT 2; 49 LINEST 1-4; 50 TREND 1-4; 51 LOGEST 1-4; 52 GROWTH 1-4; 56 PV 3-5; 57 FV 3-5; 58 NPER 3-5; 59 PMT 3-5; 60 RATE 3-6; 61 MIRR
3; 62 IRR 1-2; 63 RAND 0; 64 MATCH 2-3; 65 DATE 3; 66 TIME 3; 67 DAY 1; 68 MONTH 1; 69 YEAR 1; 70 WEEKDAY 1-2; 71 HOUR 1; 72 MINUTE 1; 73
SECOND 1; 74 NOW 0; 75 AREAS 1; 76 ROWS 1; 77 COLUMNS 1; 78 OFFSET 3-5; 82 SEARCH 2-3; 83 TRANSPOSE 1; 86 TYPE 1; 97 ATAN2 2; 98 ASIN 1; 99
ACOS 1; 100 CHOOSE 2-30; 101 HLOOKUP 3-4; 102 VLOOKUP 3-4; 105 ISREF 1; 109 LOG 1-2; 111 CHAR 1; 112 LOWER 1; 113 UPPER 1; 114 PROPER 1; 115
LEFT 1-2; 116 RIGHT 1-2; 117 EXACT 2; 118 TRIM 1; 119 REPLACE 4; 120 SUBSTITUTE 3-4; 121 CODE 1; 124 FIND 2-3; 125 CELL 1-2; 126 ISERR 1;
127 ISTEXT 1; 128 ISNUMBER 1; 129 ISBLANK 1; 130 T 1; 131 N 1; 140 DATEVALUE 1; 141 TIMEVALUE 1; 142 SLN 3; 143 SYD 4; 144 DDB 4-5; 148
INDIRECT 1-2; 162 CLEAN 1; 163 MDETERM 1; 164 MINVERSE 1; 165 MMULT 2; 167 IPMT 4-6; 168 PPMT 4-6; 169 COUNTA 0-30; 183 PRODUCT 0-30; 184
FACT 1; 189 DPRODUCT 3; 190 ISNONTEXT 1; 193 STDEVP 1-30; 194 VARP 1-30; 195 DSTDEVP 3; 196 DVARP 3; 197 TRUNC 1-2; 198 ISLOGICAL 1; 199
DCOUNTA 3; 204 USDOLLAR 1-2; 205 FINDB 2-3; 206 SEARCHB 2-3; 207 REPLACEB 4; 208 LEFTB 1-2; 209 RIGHTB 1-2; 210 MIDB 3; 211 LENB 1; 212
ROUNDUP 2; 213 ROUNDDOWN 2; 214 ASC 1; 215 DBCS 1; 216 RANK 2-3; 219 ADDRESS 2-5; 220 DAYS360 2-3; 221 TODAY 0; 222 VDB 5-7; 227 MEDIAN
1-30; 228 SUMPRODUCT 1-30; 229 SINH 1; 230 COSH 1; 231 TANH 1; 232 ASINH 1; 233 ACOSH 1; 234 ATANH 1; 235 DGET 3; 244 INFO 1; 247 DB 4-5;
252 FREQUENCY 2; 261 ERROR.TYPE 1; 269 AVEDEV 1-30; 270 BETADIST 3-5; 271 GAMMALN 1; 272 BETAINV 3-5; 273 BINOMDIST 4; 274 CHIDIST 2; 275
CHIINV 2; 276 COMBIN 2; 277 CONFIDENCE 3; 278 CRITBINOM 3; 279 EVEN 1; 280 EXPONDIST 3; 281 FDIST 3; 282 FINV 3; 283 FISHER 1; 284 FISHERINV
1; 285 FLOOR 2; 286 GAMMADIST 4; 287 GAMMAINV 3; 288 CEILING 2; 289 HYPGEOMDIST 4; 290 LOGNORMDIST 3; 291 LOGINV 3; 292 NEGBINOMDIST 3; 293
NORMDIST 4; 294 NORMSDIST 1; 295 NORMINV 3; 296 NORMSINV 1; 297 STANDARDIZE 3; 298 ODD 1; 299 PERMUT 2; 300 POISSON 3; 301 TDIST 3; 302
WEIBULL 4; 303 SUMXMY2 2; 304 SUMX2MY2 2; 305 SUMX2PY2 2; 306 CHITEST 2; 307 CORREL 2; 308 COVAR 2; 309 FORECAST 3; 310 FTEST 2; 311
INTERCEPT 2; 312 PEARSON 2; 313 RSQ 2; 314 STEYX 2; 315 SLOPE 2; 316 TTEST 4; 317 PROB 3-4; 318 DEVSQ 1-30; 319 GEOMEAN 1-30; 320 HARMEAN
1-30; 321 SUMSQ 0-30; 322 KURT 1-30; 323 SKEW 1-30; 324 ZTEST 2-3; 325 LARGE 2; 326 SMALL 2; 327 QUARTILE 2; 328 PERCENTILE 2; 329
PERCENTRANK 2-3; 330 MODE 1-30; 331 TRIMMEAN 2; 332 TINV 2; 336 CONCATENATE 0-30; 337 POWER 2; 342 RADIANS 1; 343 DEGREES 1; 344 SUBTOTAL
2-30; 345 SUMIF 2-3; 346 COUNTIF 2; 347 COUNTBLANK 1; 350 ISPMT 4; 354 ROMAN 1-2; 358 GETPIVOTDATA 2-30; 359 HYPERLINK 1-2; 360 PHONETIC 1;
361 AVERAGEA 1-30; 362 MAXA 1-30; 363 MINA 1-30; 364 STDEVPA 1-30; 365 VARPA 1-30; 366 STDEVA 1-30; 367 VARA 1-30; 368 BAHTTEXT 1; 379 RTD
3-30
"""
FIXED, VARIABLE, FUNCTION_NAMES = {}, {255: (1, 30)}, {}
for _f in FUNCTIONS.split(';'):
    _i, _n, _a = _f.split()
    FUNCTION_NAMES[int(_i)] = _n
    if '-' in _a:
        VARIABLE[int(_i)] = tuple(map(int, _a.split('-')))
    else:
        FIXED[int(_i)] = int(_a)


def expr_tokens(wb, e, depth):
    """-> (RPN tokens, constant data that follows the tokens) of an expression tree."""
    depth[0] += 1
    req(depth[0] < 60)
    k = e[0]

    def sub(x):
        return expr_tokens(wb, x, depth)
    if k == 'referr':
        # a reference whose cells are gone: e[1] one of the five tokens for that
        if e[1] == 0:
            return b'\x2a' + bytes(4 if wb['v'] >= 80 else 3), b''
        if e[1] == 1:
            return b'\x2b' + bytes(8 if wb['v'] >= 80 else 6), b''
        if wb['v'] >= 80:
            return bytes([0x3c, 0x3d][e[1] - 2:e[1] - 1]) + P('<H', xti_index(wb, e[2])) + bytes([4, 8][e[1] - 2]), b''
        return bytes([0x3c, 0x3d][e[1] - 2:e[1] - 1]) + P('<h8xhh', -1, *e[2]) + bytes([3, 6][e[1] - 2]), b''
    if k in ('num', 'int', 'str', 'bool', 'err', 'name', 'namex', 'ref', 'area', 'relref', 'relarea'):
        b = name_formula(wb, {'f': e if k != 'ref' else e[:4]})
        cls = e[-1] if isinstance(e[-1], str) and e[-1] in ('V', 'A') and k in ('ref', 'area', 'relref', 'relarea', 'name') else 'R'
        if cls != 'R':
            b = bytes([b[0] + (0x20 if cls == 'V' else 0x40)]) + b[1:]
        return b, b''
    if k == 'miss':
        return b'\x16', b''
    if k == 'un':
        a, x = sub(e[2])
        return a + bytes([UNARY[e[1]]]), x
    if k == 'bin':
        a, x = sub(e[2])
        b, y = sub(e[3])
        return a + b + bytes([BINARY[e[1]]]), x + y
    if k == 'paren':
        a, x = sub(e[1])
        return a + b'\x15', x
    if k == 'space':
        a, x = sub(e[1])
        return b'\x19\x40' + P('<BB', 0, 1) + a, x
    if k == 'vol':
        a, x = sub(e[1])
        return b'\x19\x01\0\0' + a, x
    if k == 'sum1':
        a, x = sub(e[1])
        return a + b'\x19\x10\0\0', x
    if k == 'mem':
        a, x = sub(e[1])
        return b'\x29' + P('<H', len(a)) + a, x
    if k == 'fn':
        req(e[1] in FIXED and len(e[2]) == FIXED[e[1]])
        p = [sub(x) for x in e[2]]
        return b''.join(a for a, _ in p) + b'\x41' + P('<H', e[1]), b''.join(x for _, x in p)
    if k == 'fv':
        req(e[1] in VARIABLE and VARIABLE[e[1]][0] <= len(e[2]) <= VARIABLE[e[1]][1])
        p = [sub(x) for x in e[2]]
        if len(e) > 3 and e[3] and e[1] == 1:
            # with the jumps Excel writes around the branches
            t = p[0][0] + b'\x19\x02' + P('<H', len(p[1][0]) + 4) + p[1][0] + b'\x19\x08'
            t += P('<H', 3) if len(p) == 2 else P('<H', len(p[2][0]) + 11) + p[2][0] + b'\x19\x08' + P('<H', 3)
            return t + b'\x42' + P('<BH', len(p), 1), b''.join(x for _, x in p)
        if len(e) > 3 and e[3] and e[1] == 100:
            t = p[0][0] + b'\x19\x04' + P('<H', len(p) - 1) + b''.join(P('<H', 2 * len(p) + 9 * q) for q in range(len(p)))
            for q, (a, _) in enumerate(p[1:]):
                t += a + b'\x19\x08' + P('<H', 3 + 4 * (len(p) - 2 - q))
            return t + b'\x42' + P('<BH', len(p), 100), b''.join(x for _, x in p)
        return b''.join(a for a, _ in p) + bytes([0x22 if e[1] in (29, 78, 148) else 0x42]) + P('<BH', len(p), e[1]), b''.join(x for _, x in p)
    if k == 'arr':
        # a constant array of numbers, one row
        req(1 <= len(e[1]) < 50)
        if wb['v'] >= 80:
            x = P('<BH', len(e[1]) - 1, 0)
        else:
            x = P('<BH', len(e[1]), 1)
        return b'\x60' + b'\0' * 7, x + b''.join(P('<Bd', 1, float(q)) for q in e[1])
    raise InvalidCase('expression kind')


def name_extra(wb, n):
    """The constant data after a name's tokens."""
    return expr_tokens(wb, n['f'][1], [0])[1] if n['f'][0] == 'expr' else b''


def expr_leaves(e):
    out = []
    for x in e:
        if isinstance(x, list):
            if x and isinstance(x[0], str):
                out += expr_leaves(x)
            else:
                for y in x:
                    if isinstance(y, list):
                        out += expr_leaves(y)
    if e[0] in ('ref', 'area', 'relref', 'relarea', 'name', 'namex', 'referr'):
        out.append(e)
    return out


def xti_list(wb):
    """The REF structures the names of this workbook need (BIFF8)."""
    out = [tuple(x) if isinstance(x, list) else x for x in wb.get('xti_extra', [])]
    for n in wb.get('names', []):
        f = n['f']
        for q in f[1] if f[0] in ('union', 'range', 'isect') else expr_leaves(f[1]) if f[0] == 'expr' else [f]:
            if q[0] == 'namex':
                q = ['ref', q[2]]
            if q[0] == 'referr' and q[1] > 1:
                q = ['ref', q[2]]
            if q[0] in ('ref', 'area', 'relref', 'relarea', 'sum'):
                sr = tuple(q[1]) if isinstance(q[1], list) else q[1]
                if sr not in out:
                    out.append(sr)
    if wb.get('xti_rev'):
        out = out[::-1]
    req(0 <= wb.get('xti_pad', 0) < 65000)
    return ['del'] * wb.get('xti_pad', 0) + out


def xti_index(wb, sr):
    sr = tuple(sr) if isinstance(sr, list) else sr
    n = wb.get('xti_pad', 0)
    return xti_list(wb).index(sr, n)


BUILTIN_NAMES = {"Consolidate_Area": 0, "Auto_Open": 1, "Auto_Close": 2, "Extract": 3, "Database": 4, "Criteria": 5, "Print_Area": 6,
                 "Print_Titles": 7, "Recorder": 8, "Data_Form": 9, "Auto_Activate": 10, "Auto_Deactivate": 11, "Sheet_Title": 12,
                 "_FilterDatabase": 13}


def name_rec(wb, n, extsht_no):
    v = wb['v']
    fm = name_formula(wb, n)
    flags = (n.get('hidden', 0) | n.get('func', 0) << 1 | n.get('vbasic', 0) << 2 | n.get('macro', 0) << 3 |
             n.get('complex', 0) << 4 | n.get('builtin', 0) << 5 | n.get('group', 0) << 6 | n.get('binary', 0) << 12)
    text = chr(BUILTIN_NAMES[n['name']]) if n.get('builtin') else n['name']
    scope = n.get('scope')              # None: global; k: all-sheets index
    if v >= 80:
        nm = (b'\x01' + text.encode('utf-16-le')) if (n.get('w') or not is_latin1(text)) else (b'\0' + text.encode('latin-1'))
        nl = units(text)
        ext, shi = 0, 0 if scope is None else scope + 1
    else:
        nm = encode(text, enc_of(wb))
        nl = len(nm)
        ext = 0 if scope is None else extsht_no[scope]
        shi = 0 if scope is None else scope + 1
    req(nl < 256 and len(fm) < 2000)
    return rec(0x18, P('<HBBHHHBBBB', flags, n.get('key', 0), nl, len(fm), ext, shi, 0, 0, 0, 0) + nm + fm + name_extra(wb, n))


def build(wb):
    """-> (stream bytes, info).  info: sheet substream spans, statistics, record boundaries."""
    v = wb['v']
    req(v in (20, 21, 30, 40, 45, 50, 70, 80), 'version')
    st = {}
    info = {'stats': st}
    sheets = wb['sheets']
    req(sheets)
    if v in (20, 21, 30, 40):
        req(len(sheets) == 1)
        sh = sheets[0]
        out = bof(v, 's', wb) + foreign(wb.get('gf')) + pre_records(wb)
        body, spans = sheet_body(wb, sh, st)
        out += body + rec(0x0A)
        info['sheets'] = [(0, len(out))]
        info['globals'] = (0, 0)
        return out + bytes.fromhex(wb.get('tail', '')), info
    if v == 45:
        return build_4w(wb, info)
    # BIFF 5, 7, 8: globals then substreams
    spans = [None] * len(sheets)
    bodies = []
    for sh in sheets:
        if sh.get('type', 0) == 0:
            body, _ = sheet_body(wb, sh, st)
            bodies.append(bof(v, 's', wb) + body + rec(0x0A))
        else:
            kind = {2: 0x20, 1: 0x40, 6: 0x06}.get(sh['type'], 0x20)
            b0 = rec(0x809, P('<HHHH', 0x600 if v >= 80 else 0x500, kind, 0x0DBB, 1996) + b'\0' * (8 * (v >= 80)))
            bodies.append(b0 + foreign(sh.get('items_raw')) + rec(0x0A))
    order = wb.get('order') or list(range(len(sheets)))
    req(sorted(order) == list(range(len(sheets))))
    gaps = wb.get('gaps') or []
    g0 = build_globals(wb, [0] * len(sheets), st)
    pos = len(g0)
    offs = [0] * len(sheets)
    tail = b''
    for n, si in enumerate(order):
        gap = bytes.fromhex(gaps[n]) if n < len(gaps) else b''
        tail += gap
        pos += len(gap)
        offs[si] = pos
        spans[si] = (pos, pos + len(bodies[si]))
        tail += bodies[si]
        pos += len(bodies[si])
    g = build_globals(wb, offs, st)
    assert len(g) == len(g0)
    info['globals'] = (0, len(g))
    info['sheets'] = spans
    return g + tail + bytes.fromhex(wb.get('tail', '')), info


def pre_records(wb):
    """Everything BIFF <= 4 keeps at the head of the only sheet."""
    v = wb['v']
    out = b''
    if wb.get('cp') is not None:
        out += rec(0x42, P('<H', wb['cp']))
    if wb.get('dm') is not None:
        out += rec(0x22, P('<H', wb['dm']))
    if wb.get('user') is not None and v >= 30:
        out += rec(0x5C, bstr(wb['user'], enc_of(wb), 1) + b' ' * 5)
    if wb.get('country'):
        out += rec(0x8C, P('<HH', *wb['country']))
    for f in wb.get('fonts') or ():
        out += font_rec(wb, f)
    if v in (30, 40, 45) and wb.get('bfc') is not None:
        out += rec(0x56, P('<H', wb['bfc']))
    for k, s in wb['formats']:
        out += format_rec(wb, k, s)
    if v >= 21:
        for x in wb['xfs']:
            out += xf_rec(wb, x)
    if wb.get('palette') and v in (30, 40):
        out += palette_rec(wb['palette'])
    if v >= 30:
        for s in wb.get('styles') or ():
            out += style_rec(wb, s)
    return out


def sheet_body(wb, sh, st):
    sw = SheetWriter(wb, sh, st)
    out = b''
    if wb['v'] <= 45 or sh.get('dim'):
        d = sh.get('dim') or [0, 0]
        out += sw.dim(d[0], d[1])
    for it in sh['items']:
        out += sw.item(it)
    return out, None


def build_4w(wb, info):
    st = info['stats']
    enc = enc_of(wb)
    sheets = wb['sheets']
    g = bof(45, 'g', wb) + foreign(wb.get('gf'))
    if wb.get('cp') is not None:
        g += rec(0x42, P('<H', wb['cp']))
    if wb.get('dm') is not None:
        g += rec(0x22, P('<H', wb['dm']))
    if wb.get('user') is not None:
        g += rec(0x5C, bstr(wb['user'], enc, 1) + b' ' * 3)
    n_off = len(g) + 8 + sum(len(rec(0x85, bstr(s['name'], enc, 1))) for s in sheets)
    g += rec(0x8E, P('<i', n_off))
    for s in sheets:
        g += rec(0x85, bstr(s['name'], enc, 1))
    spans = []
    hdr = dict(wb, cp=None, dm=None, user=None, country=None)
    hdr['palette'] = None
    for s in sheets:
        body, _ = sheet_body(wb, s, st)
        w2 = dict(hdr)
        w2['cp'] = None
        pre = b''
        for f in wb.get('fonts') or ():
            pre += font_rec(wb, f)
        if wb.get('bfc') is not None:
            pre += rec(0x56, P('<H', wb['bfc']))
        for k, t in wb['formats']:
            pre += format_rec(wb, k, t)
        for x in wb['xfs']:
            pre += xf_rec(wb, x)
        for stl in wb.get('styles') or ():
            pre += style_rec(wb, stl)
        sub = bof(45, 's', wb) + pre + body + rec(0x0A)
        g += rec(0x8F, P('<i', len(sub)) + bstr(s['name'], enc, 1))
        spans.append((len(g), len(g) + len(sub)))
        g += sub
    g += rec(0x0A)
    info['sheets'] = spans
    info['globals'] = (0, 0)
    return g + bytes.fromhex(wb.get('tail', '')), info


def build_globals(wb, offs, st):
    v = wb['v']
    enc = enc_of(wb)
    gf = wb.get('gf') or []
    fi = iter(range(len(gf)))
    parts = []

    def fgn():
        i = next(fi, None)
        if i is not None:
            parts.append(foreign([gf[i]]))
    parts.append(bof(v, 'g', wb))
    user = b''
    if wb.get('user') is not None:
        if v >= 80:
            user = rec(0x5C, ustr(wb['user'], 2, wb.get('user_w')) + b' ' * wb.get('user_pad', 4))
        else:
            user = rec(0x5C, bstr(wb['user'], enc, 1) + b' ' * wb.get('user_pad', 4))
    cp = b''
    if wb.get('cp') is not None:
        cp = rec(0x42, P('<H', wb['cp']))
    fgn()
    parts += [user, cp] if wb.get('user_first') else [cp, user]
    fgn()
    if wb.get('dm') is not None:
        parts.append(rec(0x22, P('<H', wb['dm'])))
    extsht_no = {}
    pre57 = b''
    if v < 80:
        lst = ext57_list(wb)
        if lst:
            parts.append(rec(0x16, P('<H', len(lst))))
        for i, x in enumerate(lst):
            if x[0] == 'sheet':
                nm = encode(wb['sheets'][x[1]]['name'], enc)
                pre57 += rec(0x17, P('<BB', len(nm), 3) + nm)
                extsht_no.setdefault(x[1], i + 1)
            else:
                pre57 += rec(0x17, P('<BB', 1, x[1]) + b'\0' * (x[1] == 1))
        names57 = b''.join(name_rec(wb, n, extsht_no) for n in wb.get('names', ()))
        parts.append(pre57)
        parts.append(names57)
    fgn()
    order = wb.get('gorder') or 'std'
    fonts = b''.join(font_rec(wb, f) for f in wb['fonts'])
    fmts = b''.join(format_rec(wb, k, s) for k, s in wb['formats'])
    xfs = b''.join(xf_rec(wb, x) for x in wb['xfs'])
    sty = b''.join(style_rec(wb, s) for s in wb.get('styles') or ())
    pal = palette_rec(wb['palette']) if wb.get('palette') else b''
    country = rec(0x8C, P('<HH', *wb['country'])) if wb.get('country') else b''
    bs = b''
    for sh, off in zip(wb['sheets'], offs):
        nm = ustr(sh['name'], 1, sh.get('w')) if v >= 80 else bstr(sh['name'], enc, 1)
        bs += rec(0x85, P('<iBB', off, sh.get('vis', 0), sh.get('type', 0)) + nm)
    blocks = {'fonts': fonts, 'fmts': fmts, 'xfs': xfs, 'sty': sty, 'pal': pal, 'bs': bs}
    seq = {'std': ['fonts', 'fmts', 'xfs', 'sty', 'pal', 'bs'],
           'bsfirst': ['bs', 'fonts', 'fmts', 'xfs', 'sty', 'pal'],
           'palfirst': ['pal', 'fonts', 'fmts', 'xfs', 'sty', 'bs'],
           'fmtsfirst': ['fmts', 'fonts', 'xfs', 'pal', 'bs', 'sty']}[order]
    for k in seq:
        parts.append(blocks[k])
        fgn()
    parts.append(country)
    if v >= 80:
        names = wb.get('names', [])
        xti = xti_list(wb)
        if names or xti or wb.get('supbooks'):
            sup = wb.get('supbooks') or ['self']
            req('self' in sup)

            def xnames(i):          # names in another workbook (or in this one)
                for k, nm in wb.get('xnames') or ():
                    if k == i and sup[i] != 'addin':
                        parts.append(rec(0x23, P('<HI', 0, 0) + ustr(nm, 1) + b'\x02\0\x1c\x17'))
            for i, s in enumerate(sup):
                if i:
                    xnames(i - 1)
                if s == 'self':
                    parts.append(rec(0x1AE, P('<H', len(wb['sheets'])) + b'\x01\x04'))
                elif s == 'addin':
                    parts.append(rec(0x1AE, b'\x01\0\x01\x3a'))
                    for fn in wb.get('addins') or ():
                        parts.append(rec(0x23, P('<HI', 0, 0) + ustr(fn, 1) + b'\x02\0\x1c\x17'))
                elif s == 'dde':
                    parts.append(rec(0x1AE, P('<H', 0) + ustr('Excel\x03Topic', 2)))
                elif s == 'cutext':          # more sheet names than the record has room for
                    parts.append(rec(0x1AE, P('<H', 3) + ustr('\x01long.xls', 2) + ustr('Sheet1', 2) + b'\x20'))
                elif s == 'bigext':          # a list of sheet names that goes on in CONTINUE records, broken anywhere
                    b = wb['bigext']
                    body = P('<H', len(b['names'])) + ustr('\x01big.xls', 2) + b''.join(ustr(t, 2, b.get('wide')) for t in b['names'])
                    cuts = [0] + sorted(set(min(c, len(body)) for c in b['cuts'])) + [len(body)]
                    req(b['names'] and cuts[1] >= 14)
                    pieces = [body[x:y] for x, y in zip(cuts, cuts[1:]) if y > x]
                    req(all(len(x) <= 8224 for x in pieces))
                    parts.append(rec(0x1AE, pieces[0]) + b''.join(rec(0x3C, x) for x in pieces[1:]))
                elif s == 'ext':
                    parts.append(rec(0x1AE, P('<H', 1) + ustr('\x01other.xls', 2) + ustr('Sheet1', 2)))
                    parts.append(rec(0x23, P('<HI', 0, 0) + ustr('ExtName', 1) + b'\x02\0\x1c\x17'))
            xnames(len(sup) - 1)
            me = sup.index('self')
            body = P('<H', len(xti))
            for x in xti:
                if x == 'del':
                    body += P('<HHH', me, 0xFFFF, 0xFFFF)
                elif x == 'ext':
                    req('ext' in sup)
                    body += P('<HHH', sup.index('ext'), 0, 0)
                elif x == 'any':
                    body += P('<HHH', me, 0xFFFE, 0xFFFE)
                else:
                    body += P('<HHH', me, x[0], x[1])
            sizes = wb.get('xti_sizes') or [8000]
            bodies = [body[:max(2, sizes[0])]]
            rest = body[max(2, sizes[0]):]
            i = 1
            while rest:
                n = max(1, sizes[i % len(sizes)])
                bodies.append(rest[:n])
                rest = rest[n:]
                i += 1
            if len(bodies) > 1:
                st['externsheet_continue'] = 1
            parts.append(rec(0x17, bodies[0]) + b''.join(rec(0x3C, b) for b in bodies[1:]))
            parts += [name_rec(wb, n, {}) for n in names]
        fgn()
        if wb.get('sst') is not None and (wb['sst'] or wb.get('sst_empty')):
            out, cst, nb = write_sst(wb['sst'], wb.get('sst_plan'), wb.get('sst_total'), wb.get('sst_fill', 0))
            for k, x in cst.items():
                st['sst_' + k] = x
            st['sst_records'] = nb
            parts.append(out)
    for i in fi:
        parts.append(foreign([gf[i]]))
    parts.append(rec(0x0A))
    return b''.join(parts)


# ---------------------------------------------------------------- the reference model

def fbits(d):
    return 'f:' + struct.pack('>d', d).hex()


def tv(t, x):
    if isinstance(x, float):
        return [t, fbits(x)]
    if isinstance(x, str):
        return [t, 's:' + x]
    return [t, 'i:%d' % x]


def xf20(a):
    """what the three attribute bytes of a BIFF 2 cell say: format, font, locked, hidden, alignment, borders, shading"""
    return [a[1] & 0x3F, a[1] >> 6, a[0] >> 6 & 1, a[0] >> 7, a[2] & 7] + [[8, 1] if a[2] >> i & 1 else [0, 0] for i in (3, 4, 5, 6)] + [
        [17 * (a[2] >> 7), 8, 9, 2, 0, 0, 0, 0]]          # the shading is black on white; nothing else is said


EMPTY, TEXT, NUMBER, DATE, BOOL, ERR, BLANK = range(7)
CELL_ITEMS = ('num', 'int', 'rk', 'mulrk', 'lab', 'rstr', 'sst', 'bool', 'err', 'blank', 'mulblank', 'fnum', 'fstr', 'fbool', 'ferr', 'fempty')


def cells_of(wb, it):
    """-> list of (row, col, type, value, xf) one arrival item stores."""
    k = it[0]
    if k not in CELL_ITEMS:
        return []

    def num(r, c, xf, d):
        return (r, c, DATE if xf_is_date(wb, xf) else NUMBER, d, xf)
    r, c = it[1], it[2]
    if k in ('num', 'fnum'):
        return [num(r, c, it[3], hexd(it[4]))]
    if k == 'int':
        return [num(r, c, it[3], float(it[4]))]
    if k == 'rk':
        return [num(r, c, it[3], rk_value(it[4]))]
    if k == 'mulrk':
        return [num(r, c + i, x, rk_value(raw)) for i, (x, raw) in enumerate(it[3])]
    if k in ('lab', 'rstr', 'fstr'):
        return [(r, c, TEXT, it[4], it[3])]
    if k == 'sst':
        req(it[4] < len(wb['sst']))
        return [(r, c, TEXT, wb['sst'][it[4]]['t'], it[3])]
    if k in ('bool', 'fbool'):
        return [(r, c, BOOL, it[4], it[3])]
    if k in ('err', 'ferr'):
        return [(r, c, ERR, it[4], it[3])]
    if k == 'fempty':
        return [(r, c, TEXT, '', it[3])]
    if k == 'blank':
        return [(r, c, BLANK, '', it[3])]
    if k == 'mulblank':
        return [(r, c + i, BLANK, '', x) for i, x in enumerate(it[3])]


def expect_sheet(wb, sh, number, fmt, ragged):
    v = wb['v']
    grid, xfs, rich = {}, {}, {}
    nrows = ncols = 0
    for it in sh['items']:
        k = it[0]
        if k in ('blank', 'mulblank') and not fmt:
            continue
        for r, c, t, val, xf in cells_of(wb, it):
            grid[(r, c)] = tv(t, val)
            xfs[(r, c)] = xf
            nrows, ncols = max(nrows, r + 1), max(ncols, c + 1)
            rich.pop((r, c), None)
            if k == 'rstr':
                rich[(r, c)] = [list(x) for x in it[5]]
            if k == 'sst' and fmt and wb['sst'][it[4]].get('rich'):
                rich[(r, c)] = [list(x) for x in wb['sst'][it[4]]['rich']]
    lens = [0] * nrows
    for r, c in grid:
        lens[r] = max(lens[r], c + 1)
    merged = []
    if fmt:
        for it in sh['items']:
            if it[0] == 'merge':
                merged += [list(x) for x in it[1]]
        if merged:
            mc = max(m[3] for m in merged)
            mr = max(m[1] for m in merged)
            ncols = max(ncols, mc)
            if mr > nrows:
                lens += [0] * (mr - nrows)
                if not ragged or True:
                    lens[mr - 1] = max(lens[mr - 1], 1)
                nrows = mr
                ncols = max(ncols, 1)
    if not ragged:
        lens = [ncols] * nrows
    e = {'name': sh['name'], 'number': number, 'nrows': nrows, 'ncols': ncols,
         'visibility': sh.get('vis', 0) if v >= 50 else 0,
         'cells': {'%d,%d' % k: x for k, x in grid.items()},
         'row_len': rle(lens), 'rich': {'%d,%d' % k: x for k, x in rich.items()}}
    if fmt:
        if v >= 30 or v == 21:
            e['xf'] = {'%d,%d' % k: x for k, x in xfs.items()}
        elif xfs:
            e['xf20'] = {'%d,%d' % k: xf20(wb['attrs'][x]) for k, x in xfs.items()}
        e['merged'] = merged
        e.update(expect_fmt_sheet(wb, sh))
    return e


def rle(lens):
    out = []
    for x in lens:
        if out and out[-1][0] == x:
            out[-1][1] += 1
        else:
            out.append([x, 1])
    return out


WIN2 = ['show_formulas', 'show_grid_lines', 'show_sheet_headers', 'panes_are_frozen', 'show_zero_values', 'automatic_grid_line_colour',
        'columns_from_right_to_left', 'show_outline_symbols', 'remove_splits_if_pane_freeze_is_removed', 'sheet_selected',
        'sheet_visible', 'show_in_page_break_preview']


COL0 = {'width': 0, 'xf_index': -1, 'hidden': 0, 'bit1_flag': 0, 'outline_level': 0, 'collapsed': 0}


def expect_fmt_sheet(wb, sh):
    v = wb['v']
    rows, cols, notes, hl, hlmap = {}, {}, {}, [], {}
    hpb, vpb, rl, cl = [], [], [], []
    attr = {}
    has_win2 = False
    for it in sh['items']:
        k = it[0]
        d = it[1] if len(it) > 1 else None
        if k == 'row' and d['r'] >= (65536 if v >= 80 else 16384):
            continue                     # there is no such row
        if k == 'row':
            rows[str(d['r'])] = {'height': d['height'], 'has_default_height': d['defh'], 'outline_level': d['ol'],
                                 'outline_group_starts_ends': d['olse'], 'hidden': d['hidden'], 'height_mismatch': d['hm'],
                                 'has_default_xf_index': d['hasxf'], 'xf_index': d['xf'] if d['hasxf'] else -1,
                                 'additional_space_above': d['above'], 'additional_space_below': d['below']}
        elif k == 'col' and d['b'] > 256:
            pass                         # refused with a note in the log
        elif k == 'col':
            for c in range(d['a'], min(d['b'], 255) + 1):
                cols[str(c)] = {'width': d['width'], 'xf_index': d['xf'], 'hidden': d['hidden'], 'bit1_flag': d['b1'],
                                'outline_level': d['ol'], 'collapsed': d['collapsed']}
        elif k == 'rowb2':
            rows[str(d['r'])] = {'height': d['height'], 'has_default_height': d['defh'], 'has_default_xf_index': d['hasxf'],
                                 'xf_index': d['xf'] if d['hasxf'] else -1, 'outline_level': 0, 'outline_group_starts_ends': 0, 'hidden': 0,
                                 'height_mismatch': 0, 'additional_space_above': 0, 'additional_space_below': 0}
        elif k == 'colw':
            for c in range(d['a'], d['b'] + 1):
                cols.setdefault(str(c), dict(COL0))['width'] = d['width']
        elif k == 'coldef':
            for c, x in enumerate(d['xfs']):
                cols.setdefault(str(d['a'] + c), dict(COL0))['xf_index'] = x
        elif k == 'win2b2':
            has_win2 = True
            for n, dflt in zip(WIN2, [0, 1, 1, 0, 1, 1, 0, 1, 0, 0, 0, 0]):
                attr[n] = dflt
            for n, b in zip(WIN2[:6], d['bits']):
                attr[n] = b
            attr['first_visible_rowx'], attr['first_visible_colx'] = d['r'], d['c']
            attr['gridline_colour_rgb'] = list(d['rgb'])
        elif k == 'labelranges':
            rl += [list(x) for x in d['rows']]
            cl += [list(x) for x in d['cols']]
        elif k == 'hpb':
            hpb += [list(x) if v >= 80 else [x[0], 0, 255] for x in d]
        elif k == 'vpb':
            vpb += [list(x) if v >= 80 else [x[0], 0, 65535] for x in d]
        elif k == 'win2':
            has_win2 = True
            for n, b in zip(WIN2, d['bits']):
                attr[n] = b
            attr['first_visible_rowx'], attr['first_visible_colx'] = d['r'], d['c']
            if v >= 80:
                attr['gridline_colour_index'] = d['grid']
                attr['cached_page_break_preview_mag_factor'] = d['pbz']
                attr['cached_normal_view_mag_factor'] = d['nz']
            else:
                attr['gridline_colour_rgb'] = list(d['rgb'])
        elif k == 'scl':
            z = d[0] * 100 // d[1] if d[1] else 0
            attr['scl_mag_factor'] = z if 10 <= z <= 400 else 100
        elif k == 'pane':
            attr['vert_split_pos'], attr['horz_split_pos'], attr['horz_split_first_visible'], attr['vert_split_first_visible'], \
                attr['split_active_pane'] = d
            attr['has_pane_record'] = 1
        elif k == 'defrow':
            attr['default_row_height'] = d['h']
            attr['default_row_height_mismatch'] = d['mismatch']
            attr['default_row_hidden'] = d['hidden']
            attr['default_additional_space_above'] = d['above']
            attr['default_additional_space_below'] = d['below']
        elif k == 'defcol':
            attr['defcolwidth'] = d
        elif k == 'stdw':
            attr['standardwidth'] = d
        elif k == 'gcw':
            attr['gcw'] = list(d)
        elif k == 'note':
            notes['%d,%d' % (d['r'], d['c'])] = {'author': '', 'text': d['text'], 'show': 0, 'row_hidden': 0, 'col_hidden': 0,
                                                 'rowx': d['r'], 'colx': d['c'], 'runs': [[0, 0]]}
        elif k == 'notes8':
            for n in d['list']:
                notes['%d,%d' % (n['r'], n['c'])] = {'author': n['author'], 'text': n['text'], 'show': n['show'], 'row_hidden': n['rh'],
                                                     'col_hidden': n['ch'], 'rowx': n['r'], 'colx': n['c'],
                                                     'runs': [list(x) for x in n['runs']] if n['text'] else []}
        elif k == 'hlink':
            url = None
            if d['kind'] in ('url', 'unc'):
                url = 's:' + d['url']
            elif d['kind'] == 'file':
                url = 's:' + d['long'] if d.get('long') is not None else 'b:' + ('..\\' * d['up'] + d['short']).encode('latin-1').hex()
            hl.append({'frowx': d['r1'], 'lrowx': d['r2'], 'fcolx': d['c1'], 'lcolx': d['c2'],
                       'type': {'file': 'local file', 'other': None}.get(d['kind'], 'workbook' if d['kind'] == 'unknown' and d.get('mark') is not None else d['kind']), 'url_or_path': url,
                       'desc': d.get('desc'), 'target': d.get('target'), 'textmark': d.get('mark'), 'quicktip': d.get('tip')})
            for r in range(d['r1'], d['r2'] + 1):
                for c in range(d['c1'], d['c2'] + 1):
                    hlmap['%d,%d' % (r, c)] = len(hl) - 1
    if not has_win2:
        for n, dflt in zip(WIN2, [0, 1, 1, 0, 1, 1, 0, 1, 0, 0, 0, 0]):
            attr[n] = dflt
    # zoom: what each view would show
    scl = attr.get('scl_mag_factor')
    if attr['show_in_page_break_preview']:
        attr['cooked_page_break_preview_mag_factor'] = 100 if scl is None else scl
        z = attr.get('cached_normal_view_mag_factor', 0)
        attr['cooked_normal_view_mag_factor'] = z if 10 <= z <= 400 else attr['cooked_page_break_preview_mag_factor']
    else:
        attr['cooked_normal_view_mag_factor'] = 100 if scl is None else scl
        z = attr.get('cached_page_break_preview_mag_factor', 0)
        attr['cooked_page_break_preview_mag_factor'] = 60 if z == 0 else (z if 10 <= z <= 400 else attr['cooked_normal_view_mag_factor'])
    other = 8 * 256 if attr.get('defcolwidth') is None else attr['defcolwidth'] * 256
    std = other if attr.get('standardwidth') is None else attr['standardwidth']
    widths = []
    for c in range(256):
        own = cols.get(str(c))
        if v >= 80:
            x = std if own is None else own['width']
        elif v >= 40 and (attr.get('gcw') or (0,) * 256)[c]:
            x = std
        else:
            x = other if own is None else own['width']
        if widths and widths[-1][0] == x:
            widths[-1][1] += 1
        else:
            widths.append([x, 1])
    e = {'rowinfo': rows, 'colinfo': cols, 'notes': notes, 'hyperlinks': hl, 'hyperlink_map': hlmap, 'hpb': hpb, 'vpb': vpb,
         'row_label_ranges': rl, 'col_label_ranges': cl, 'attr': attr}
    if v >= 30:
        e['colwidth'] = widths           # what BIFF 2's COLWIDTH means for it is not documented
    return e


def expect_xf(wb, i, x):
    v = wb['v']
    b, bg = x['b'], x['bg']
    if v >= 30:
        req(x['style'] or x['par'] < len(wb['xfs']), 'parent style')
        req(v >= 50 or wb.get('unkfmt') or x['fmt'] < len(wb['formats']), 'format')
        req(v < 50 or x['fmt'] in (wb.get('unkfmt') or ()) or any(k == x['fmt'] for k, _ in wb['formats']) or x['fmt'] in BUILTIN_DATE or x['fmt'] in BUILTIN_NUM, 'format key')
    e = {'font_index': x['font'], 'format_key': x['fmt'] if fmt_known(wb, x['fmt']) else 0, 'xf_index': i, 'cell_locked': x['locked'], 'formula_hidden': x['fhid'],
         'hor_align': x['ha']}
    if v == 21:
        for n in ('left', 'right', 'top', 'bottom'):
            on = b[n[0] + 's'] & 1
            e[n + '_line_style'], e[n + '_colour_index'] = on, 8 * on
        e['fill_pattern'] = 17 * (bg['pat'] & 1)
        e.update(pattern_colour_index=8, background_colour_index=9)     # black on white
        for n in ('format', 'font', 'alignment', 'border', 'background', 'protection'):
            e['_%s_flag' % n] = 1
    if v >= 30:
        e.update(is_style=x['style'], lotus_123_prefix=x['lotus'], text_wrapped=x['wrap'],
                 left_line_style=b['ls'], right_line_style=b['rs'], top_line_style=b['ts'], bottom_line_style=b['bs'],
                 left_colour_index=b['lc'], right_colour_index=b['rc'], top_colour_index=b['tc'], bottom_colour_index=b['bc'],
                 fill_pattern=bg['pat'], pattern_colour_index=bg['pc'], background_colour_index=bg['bc'],
                 parent_style_index=x['par'])
        for n, f in zip(['_format_flag', '_font_flag', '_alignment_flag', '_border_flag', '_background_flag', '_protection_flag'], x['flags']):
            e[n] = f
    if v >= 40:
        e.update(vert_align=x['va'], rotation=x['rot'])
    else:
        e.update(vert_align=2, rotation=0)          # always at the bottom, upright
    if v >= 80:
        e.update(indent_level=x['ind'], shrink_to_fit=x['shr'], text_direction=x['dir'], diag_down=b['dd'], diag_up=b['du'],
                 diag_colour_index=b['dc'], diag_line_style=b['ds'])
    else:
        e.update(indent_level=0, shrink_to_fit=0, text_direction=0, diag_down=0, diag_up=0, diag_colour_index=0, diag_line_style=0)
    return e


BUILTIN_STYLES = ["Normal", "RowLevel_", "ColLevel_", "Comma", "Currency", "Percent", "Comma [0]", "Currency [0]", "Hyperlink", "Followed Hyperlink"]


def expect(wb, fmt=False, ragged=False, sheets=True):
    v = wb['v']
    real = [s for s in wb['sheets'] if s.get('type', 0) == 0]
    req(not 30 <= v < 50 or wb['formats'] or wb.get('cp') is not None)
    b = {'nsheets': len(real), 'datemode': wb.get('dm') or 0,
         'countries': list(wb.get('country') or (0, 0)),
         'sheet_names': ['Sheet 1'] if v in (20, 21, 30, 40) else [s['name'] for s in real]}
    if v != 20:
        b['biff_version'] = v
    if v >= 30:
        b['user_name'] = (wb.get('user') or '').rstrip()
    b['addin_func_names'] = list(wb.get('addins') or ()) if v >= 80 and 'addin' in (wb.get('supbooks') or ()) else []
    if v < 80:
        b['codepage'] = wb.get('cp')
        if v >= 30 or wb.get('cp') is not None:      # nothing may need decoding
            b['encoding'] = enc_of(wb)
    else:
        # whatever the code page, the strings are Unicode
        cp = wb.get('cp')
        known = cp is not None and (cp in CODEPAGE_ENC or 300 <= cp <= 1999)
        b['codepage'] = cp if known else 1200
        b['encoding'] = CODEPAGE_ENC.get(cp, 'cp%s' % cp) if known and cp != 1200 else 'utf_16_le'
    e = {'book': b}
    if sheets:
        e['sheets'] = []
        for i, s in enumerate(real):
            x = expect_sheet(wb, s, i, fmt, ragged)
            if v in (20, 21, 30, 40):
                x['name'] = 'Sheet 1'
            e['sheets'].append(x)
    if fmt:
        fe = []
        for i, f in enumerate(wb['fonts']):
            j = i if i < 4 else i + 1
            d = {'font_index': j, 'name': f['name'], 'height': f['height'], 'bold': f['bold'], 'italic': f['italic'],
                 'underlined': f['under'], 'struck_out': f['struck'], 'outline': f['outline'], 'shadow': f['shadow'],
                 'colour_index': f['colour']}
            if v >= 50:
                d.update(weight=f['weight'], escapement=f['esc'], underline_type=f['ul'], family=f['fam'], character_set=f['cs'])
            else:
                d.update(weight=700 if f['bold'] else 400, underline_type=f['under'])
            if v < 30:
                del d['outline'], d['shadow']
            fe.append(d)
        if len(fe) > 4:
            fe.insert(4, {'font_index': 4})        # the index no writer uses
        e['fonts'] = fe
        if v >= 50:
            fm = {}
            for k, s in wb['formats']:
                fm[str(k)] = [s, int(isdate(wb, s))]
        else:
            fm = {str(i): [s, int(isdate(wb, s))] for i, (k, s) in enumerate(wb['formats'])}
        e['formats'] = fm
        if v >= 50 and wb['xfs']:
            e['format_map'] = {str(k): [BUILTIN_STRINGS.get(k), {0: 3, 49: 4}.get(k, 1 if k in BUILTIN_DATE else 2)]
                               for k in BUILTIN_DATE + BUILTIN_NUM if str(k) not in fm}
        if v > 20:
            e['xfs'] = [expect_xf(wb, i, x) for i, x in enumerate(wb['xfs'])]
        sm = {}
        for s in wb.get('styles') or ():
            if s.get('bad'):
                req(not sm and v != 45)
                sm['Normal'] = [1, 0]
            elif s.get('builtin') is not None:
                n = BUILTIN_STYLES[s['builtin']]
                if s['builtin'] in (1, 2):
                    n += str(s['level'] + 1)
                sm[n] = [1, s['xf']]
            else:
                sm[s['name']] = [0, s['xf']]
        e['styles'] = sm
        if v != 45:
            e['palette'] = [list(x) for x in wb.get('palette') or []]
            e['colour_map'] = colours(wb)
    if v >= 50:
        e['names'] = expect_names(wb)
    return e


def all_to_real(wb, k):
    n = 0
    for i, s in enumerate(wb['sheets']):
        if s.get('type', 0) == 0:
            if i == k:
                return n
            n += 1
        elif i == k:
            return None


def expect_names(wb):
    v = wb['v']
    out = []
    for i, n in enumerate(wb.get('names') or ()):
        sc = n.get('scope')
        if sc is None:
            scope = -1
        else:
            r = all_to_real(wb, sc)
            scope = -2 if r is None else r
        d = {'name': n['name'], 'scope': scope, 'name_index': i, 'hidden': n.get('hidden', 0), 'func': n.get('func', 0),
             'vbasic': n.get('vbasic', 0), 'macro': n.get('macro', 0), 'complex': n.get('complex', 0), 'builtin': n.get('builtin', 0),
             'funcgroup': n.get('group', 0), 'binary': n.get('binary', 0), 'raw_formula': (name_formula(wb, n) + name_extra(wb, n)).hex()}
        out.append(d)
    return out
