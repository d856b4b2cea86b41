"""Random workbook descriptions (see biff.py).  Everything is drawn from the rng given."""
import struct

from . import biff

VERSIONS = [80, 80, 80, 80, 80, 80, 70, 50, 50, 45, 40, 30, 21, 20]
ASCII = 'abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 _-.,'
LATIN = 'éüñßÀøÿ£°±'
WIDE = 'ЖдяΩπ中文字한글אב€–…あア'
ASTRAL = '😀𝒳𐍈🂡𝄞'


def text(rng, wb, maxlen=12, minlen=0, astral=0.12):
    enc = biff.enc_of(wb)
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 12, 20, 40, 100, 300])
    n = max(minlen, min(n, maxlen))
    mode = rng.random()
    pool = ASCII
    if mode < 0.35:
        pool = ASCII
    elif mode < 0.55:
        pool = ASCII + LATIN * 3
    elif mode < 0.75:
        pool = ASCII[:8] + WIDE
    elif mode < 0.9:
        pool = ASCII[:6] + LATIN + WIDE
    else:
        pool = ASCII[:4] + WIDE[:4] + ASTRAL
    if rng.random() < astral:
        pool += ASTRAL
    s = ''.join(rng.choice(pool) for _ in range(n))
    if enc != 'utf_16_le':
        out = ''
        for ch in s:
            try:
                ok = ch.encode(enc).decode(enc) == ch
            except UnicodeError:
                ok = False
            out += ch if ok else 'x'
        s = out
    return s


ODD = '\0\0\n\r\t\x01\x1f\x7f\x85\xa0\xad\u2028\u200f\ufeff\ufffe\ufffd\uffff\u0130\u0131\u017f\u212a\u0301'


def strange(rng, wb, t):
    """now and then with characters that software tends to treat specially"""
    if not t or rng.random() > 0.05:
        return t
    enc = biff.enc_of(wb)
    t = list(t)
    for _ in range(rng.choice([1, 1, 2, 5])):
        ch = rng.choice(ODD)
        try:
            ok = ch.encode(enc).decode(enc) == ch
        except UnicodeError:
            ok = False
        if ok:
            t[rng.choice([0, len(t) - 1, rng.randrange(len(t))])] = ch
    return ''.join(t)


def fits(wb, s, n):
    """trim so that the stored form is under n units"""
    while (biff.units(s) if wb['v'] >= 80 else len(biff.encode(s, biff.enc_of(wb)))) > n:
        s = s[:-1]
    return s


INTERESTING = [0.0, 1.0, -1.0, 0.1, 1e300, 5e-324, 2 ** 53, -0.0, float('inf'), 36526.5, 2958465.0, 60.0, 0.01, 123456.78, float('nan'), 1e-10]


def dbl(rng, formula=False):
    m = rng.random()
    if m < 0.4:
        d = struct.pack('<d', rng.choice(INTERESTING))
    elif m < 0.7:
        d = struct.pack('<d', rng.uniform(-1e6, 1e6))
    elif m < 0.9:
        d = struct.pack('<d', float(rng.randrange(-100000, 100000)))
    else:
        d = rng.getrandbits(64).to_bytes(8, 'little')
    if d[6:] == b'\xff\xff':
        d = d[:6] + b'\xf0\x3f'
    return d.hex()


def rk(rng):
    m = rng.random()
    if m < 0.3:
        return ((rng.randrange(-5000, 5000) & 0x3FFFFFFF) << 2) | 2 | rng.randrange(2)
    if m < 0.5:
        return (rng.choice([0x1FFFFFFF, 0x20000000, 0x3FFFFFFF, 0, 1, 0x1FFFFFFE]) << 2) | 2 | rng.randrange(2)
    if m < 0.75:
        hi = struct.unpack('<Q', struct.pack('<d', rng.uniform(-1e5, 1e5)))[0] >> 32
        return (hi & 0xFFFFFFFC) | rng.randrange(2)
    return rng.getrandbits(32)


def gen_font(rng, wb, rich):
    v = wb['v']
    r = rng.randrange
    colour = rng.choice([0x7FFF, 8, 9, 10, 0, 1] if v < 50 else [0x7FFF, 8, 9, 10, 63, 23, 64, 81])
    if v <= 40:
        colour = rng.choice([0x7FFF, 8, 9, 23, 24])
    f = {'height': rng.choice([200, 160, 240, 1, 0xFFFF, r(65536)]), 'bold': r(2), 'italic': r(2), 'under': r(2), 'struck': r(2),
         'outline': r(2), 'shadow': r(2), 'colour': colour, 'weight': rng.choice([400, 700, 100, 1000]), 'esc': r(3),
         'ul': rng.choice([0, 1, 2, 0x21, 0x22]), 'fam': r(6), 'cs': rng.choice([0, 1, 2, 77, 128, 204, 255]),
         'name': fits(wb, text(rng, wb, 20, 1), 200) or 'Arial'}
    if rng.random() < 0.3 and v >= 80:
        f['w'] = 1
    return f


def gen_xf(rng, wb, i, fmtkeys, nstyle, rich):
    v = wb['v']
    r = rng.randrange
    style = int(i < nstyle)
    if v >= 50:
        fi = r(len(wb['fonts']))
        fi = fi if fi < 4 else fi + 1
    else:
        fi = r(len(wb['fonts']))
        fi = fi if fi < 4 else fi + 1
        if v == 21:
            fi = fi
    ncol = 64 if v >= 50 else 24

    def col():
        return rng.choice([0x40, 0x41, 8, 9, ncol - 1, 8 + r(ncol - 8)] if v >= 50 else [0x18, 0x19, 8, 9, 23, 8 + r(16)])
    x = {'font': fi, 'fmt': rng.choice(fmtkeys), 'locked': r(2), 'fhid': r(2), 'style': style, 'lotus': r(2),
         'par': 0xFFF if style else r(nstyle), 'ha': r(8), 'wrap': r(2), 'va': r(4) if v < 80 else r(5),
         'rot': 0, 'ind': 0, 'shr': 0, 'dir': 0, 'flags': [r(2) for _ in range(6)],
         'b': {k: 0 for k in ('ls', 'rs', 'ts', 'bs', 'lc', 'rc', 'tc', 'bc', 'dd', 'du', 'dc', 'ds')},
         'bg': {'pat': 0, 'pc': 0x40 if v >= 50 else 0x18, 'bc': 0x41 if v >= 50 else 0x19}}
    if rich:
        if v >= 80:
            x['rot'] = rng.choice([0, 255, 90, 180, 45, 135, r(181)])
            x['ind'], x['shr'], x['dir'] = r(16), r(2), r(3)
        elif v >= 40:
            x['rot'] = rng.choice([0, 255, 90, 180])
        for k in ('ls', 'rs', 'ts', 'bs'):
            x['b'][k] = r(14) if v >= 80 else r(8)
        for k in ('lc', 'rc', 'tc', 'bc'):
            x['b'][k] = col()
        if v >= 80:
            x['b'].update(dd=r(2), du=r(2), dc=col(), ds=r(14))
        x['bg'] = {'pat': r(64) if v >= 80 else r(64), 'pc': col(), 'bc': col()}
    return x


def gen_wb(rng, v=None, fmt=False, nsheets=None, maxcells=40, arrival=None, notes=None, names=None, hlinks=None, foreign=True, charts=None,
           sst_split=None, far=0.08, fstr_plan=None, rich_xf=None, min_cells=0, dup=True, mixed_types=True, name_kinds=None):
    v = v if v is not None else rng.choice(VERSIONS)
    wb = {'v': v}
    if v >= 80:
        if rng.random() < 0.5:
            wb['cp'] = rng.choice([1200, 1200, 1200, 1252, 1251, 10000, 932, 21010, 0, 65001, 2000, 299])
    elif rng.random() < 0.85:
        wb['cp'] = rng.choice(list(biff.CODEPAGE_ENC))
    if rng.random() < 0.5:
        wb['dm'] = rng.randrange(2)
    if rng.random() < 0.6 and v >= 30:
        wb['user'] = fits(wb, text(rng, wb, 20), 100)
        wb['user_pad'] = rng.choice([0, 4, 80])
        if v >= 80 and rng.random() < 0.3:
            wb['user_w'] = 1
            wb['user_pad'] = wb['user_pad'] // 2 * 2
        if v >= 50 and rng.random() < 0.3:
            wb['user_first'] = 1
    if rng.random() < 0.3 and v != 45:
        wb['country'] = [rng.choice([1, 44, 61, 49]), rng.choice([1, 44, 61, 81])]
    if v == 50 and rng.random() < 0.5:
        wb['b5build'] = rng.choice([[0x096C, 1996], [3218, 1997], [3321, 1995], [4000, 1993]])
    if rng.random() < 0.4:
        wb['bof'] = gen_bof(rng, v)
    rich = fmt if rich_xf is None else rich_xf
    wb['fonts'] = [gen_font(rng, wb, rich) for _ in range(rng.choice([1, 2, 4, 5, 6, 9]) if v >= 30 else rng.choice([1, 2, 4]))]
    # number formats
    strs = list(biff.DATE_FORMATS + biff.NUMBER_FORMATS)
    if rng.random() < 0.5:
        wb['isdate'] = {}
        for _ in range(8):
            d = rng.randrange(2)
            s = fmt_string(rng, d)
            if s not in biff._ISDATE and (d or not s.startswith('General')):
                wb['isdate'].setdefault(s, d)
        strs = sorted(wb['isdate']) * 2 + strs[:6]
    rng.shuffle(strs)
    if v >= 50:
        keys = [164 + i for i in range(rng.randrange(0, 6))]
        if rng.random() < 0.3:
            keys = [rng.choice([5, 14, 42, 22, 0x31])] + keys
        if rng.random() < 0.2:
            keys = [k if k < 164 else k + rng.choice([0, 0, 100, 500]) for k in keys]
            keys = sorted(set(keys))
        wb['formats'] = [[k, strs[i % len(strs)]] for i, k in enumerate(keys)]
        fmtkeys = keys + biff.BUILTIN_DATE + biff.BUILTIN_NUM + keys * 3
        if rng.random() < 0.1:
            wb['unkfmt'] = [k for k in (600, 163, 900, 65535) if k not in keys]
            fmtkeys += wb['unkfmt'] * 4
    else:
        fs = ['General'] + [rng.choice(strs + biff.PLAIN_FORMATS) for _ in range(rng.randrange(1, 8))]
        if rng.random() < 0.08 and v >= 30:
            fs = fs[:rng.choice([0, 0, 1])]
            wb['unkfmt'] = 1
            if not fs and wb.get('cp') is None:
                wb['cp'] = 1252
        wb['formats'] = [[i, s] for i, s in enumerate(fs)]
        fmtkeys = list(range(len(fs)))
        if wb.get('unkfmt'):
            fmtkeys += [len(fs), 40]
    if v >= 21:
        nstyle = rng.choice([1, 2, 15])
        n = nstyle + rng.choice([1, 2, 5, 8])
        if v == 21 and rng.random() < 0.4:
            n = 70
        wb['xfs'] = [gen_xf(rng, wb, i, fmtkeys, nstyle, rich) for i in range(n)]
        if v >= 50 and fmt and rng.random() < 0.003:
            # more formats than most files have: the last few again and again
            wb['xfs'] += [dict(x) for x in wb['xfs'][nstyle:]] * (rng.choice([260, 1030, 1500]) // (n - nstyle))
    else:
        wb['xfs'] = []
        wb['attrs'] = [[rng.choice([0, 0x40, 0x80, 0xC0]), rng.choice(fmtkeys) | (rng.randrange(len(wb['fonts'])) << 6), rng.randrange(256)]
                       for _ in range(rng.choice([1, 3, 8]))]
    if v >= 30 and rng.random() < 0.5:
        st = []
        used = set()
        if v != 45 and rng.random() < 0.1:
            st.append({'bad': 1, 'xf': 0})
        for _ in range(rng.randrange(1, 5)):
            if rng.random() < 0.5:
                b = rng.randrange(10)
                s = {'builtin': b, 'level': rng.randrange(7) if b in (1, 2) else 255, 'xf': rng.randrange(len(wb['xfs']))}
                key = (b, s['level'])
            else:
                s = {'name': '' if rng.random() < 0.08 else fits(wb, text(rng, wb, 15, 1), 200) or 'st', 'xf': rng.randrange(len(wb['xfs']))}
                key = s['name']
            if key not in used:
                used.add(key)
                st.append(s)
        wb['styles'] = st
    if rng.random() < 0.4 and v >= 30 and v != 45:
        n = 56 if v >= 50 else 16
        if rng.random() < 0.25:
            n = rng.choice([1, 8, 15, n - 1])
        wb['palette'] = [[rng.randrange(256) for _ in range(3)] for _ in range(n)]
    if v in (30, 40, 45) and rng.random() < 0.5:
        wb['bfc'] = rng.randrange(30)
    if v >= 50 and rng.random() < 0.4:
        wb['gorder'] = rng.choice(['std', 'bsfirst', 'palfirst', 'fmtsfirst'])
    if foreign and rng.random() < 0.4:
        wb['gf'] = [gen_foreign(rng, v, True) for _ in range(rng.randrange(1, 6))]
    if v >= 80:
        wb['sst'] = gen_sst(rng, wb, rng.choice([0, 1, 3, 8, 15]), sst_split)
        if sst_split or (sst_split is None and rng.random() < 0.4):
            wb['sst_plan'] = [rng.choice([12, 13, 14, 15, 16, 17, 20, 25, 33, 50, 100, 8224]) for _ in range(rng.randrange(1, 7))]
        if rng.random() < 0.2:
            wb['sst_total'] = rng.randrange(100)
    # sheets
    if v in (20, 21, 30, 40):
        ns = 1
    else:
        ns = nsheets or rng.choice([1, 1, 2, 2, 3, 4, 6])
    used = set()
    wb['sheets'] = []
    for i in range(ns):
        nm = fits(wb, text(rng, wb, 12, 1), 31) or 's'
        while nm.lower() in used:
            nm = 's%d' % len(used) if nm in ('', 's') else fits(wb, nm[:-2] + '%d' % len(used), 31)
            if nm.lower() in used:
                nm = 'n%d_%d' % (len(used), i)
        if i and rng.random() < 0.06:
            # a name that differs from another one by case only
            alt = ''.join(ch.swapcase() if ch.isascii() else ch for ch in rng.choice(wb['sheets'])['name'])
            if alt not in [q['name'] for q in wb['sheets']]:
                nm = alt
        used.add(nm.lower())
        sh = {'name': nm}
        if v >= 50:
            sh['vis'] = rng.choice([0, 0, 0, 1, 2])
            if mixed_types and ns > 1 and i and rng.random() < 0.15:
                sh['type'] = rng.choice([1, 2, 6])
                sh['items_raw'] = [gen_foreign(rng, v) for _ in range(rng.randrange(3))]
                sh['items'] = []
            if v >= 80 and rng.random() < 0.3:
                sh['w'] = 1
            if rng.random() < 0.1:
                sh['fcode'] = rng.choice([0x06, 0x206, 0x406])
        wb['sheets'].append(sh)
    if all(s.get('type', 0) for s in wb['sheets']):
        wb['sheets'][0]['type'] = 0
    for sh in wb['sheets']:
        if sh.get('type', 0) == 0:
            gen_items(rng, wb, sh, fmt, maxcells, arrival, notes, hlinks, foreign, charts, far, fstr_plan, min_cells, dup)
    if v >= 50:
        if rng.random() < 0.3:
            o = list(range(ns))
            rng.shuffle(o)
            wb['order'] = o
        if rng.random() < 0.2:
            wb['gaps'] = [bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 7, 30]))).hex() for _ in range(ns)]
        if names or (names is None and rng.random() < 0.3):
            gen_names(rng, wb, rng.choice([1, 2, 4, 8]), name_kinds)
        elif v >= 80 and names is None and rng.random() < 0.15:
            wb['supbooks'] = rng.choice([['self', 'addin'], ['addin', 'self'], ['ext', 'addin', 'self']])
            wb['addins'] = ['FN%d' % i for i in range(rng.randrange(3))]
    if rng.random() < 0.2:
        wb['tail'] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 4, 50]))).hex()
    return wb


def more_sheets(rng, wb, n):
    """many more sheets, with next to nothing in them"""
    if wb['v'] < 50:
        return
    used = {s['name'].lower() for s in wb['sheets']}
    for i in range(n):
        nm = 'm%d' % i
        if nm not in used:
            wb['sheets'].append({'name': nm, 'items': [['num', rng.randrange(3), rng.randrange(3), 0, struct.pack('<d', i).hex()]]})
    for k in ('order', 'gaps'):
        wb.pop(k, None)


def gen_bof(rng, v):
    """Beginning-of-file records as other writers of the version make them: other lengths, build
    numbers, version words, and the BIFF 5 form of record in a file of an earlier version."""
    b = {'len': rng.choice([0, 4, 4, 5, 6, 7, 8, 10, 12, 16, 18, 20])}
    if v >= 50:
        if v == 80:
            b['by'] = [rng.choice([0, 2412, 3218, 3515, 4307, 6214, 65535]), rng.choice([0, 1993, 1996, 1997, 2002, 65535])]
        elif v == 70:
            b['by'] = [rng.choice([0, 2411, 3515, 4000, 65535]), rng.choice([1994, 1995, 1996, 2001, 65535])]
            b['len'] = max(b['len'], 8)
    else:
        if rng.random() < 0.6:
            b['op8'] = {40: 0x400, 45: 0x400, 30: 0x300}.get(v) or rng.choice([0, 7, 0x200])
            b['by'] = [rng.choice([0, 3515]), rng.choice([0, 1996])]
        elif v <= 21:
            b['ver'] = rng.choice([0, 2, 4, 7, 0x200, 0x500])
        else:
            b['ver'] = rng.choice([0, 2, 0x200, 0x300, 0x400, 0x500])
    return b


def fmt_string(rng, date):
    """a number format that is, by the way it is put together, one for dates (or not)"""
    r = rng.random
    lits = ['"', '"', '\\', '_', '*', 'br']

    def lit():
        k = rng.choice(lits)
        if k == '"':
            return '"%s"' % rng.choice(['day', 'h', 'm 0', 'x#', ' hrs ', '0.00', 'sum', 'dd', ';', '[', 'yes', 'No'])
        if k == 'br':
            return rng.choice(['[Red]', '[Blue]', '[Magenta]', '[$-409]', '[>=100]', '[Color 5]', '[$EUR-407]', '[White]', '[<0]'])
        return k + rng.choice('dmhys0#? .-)x"\\[];*_')
    if date:
        toks = ['d', 'dd', 'ddd', 'dddd', 'm', 'mm', 'mmm', 'mmmm', 'mmmmm', 'yy', 'yyyy', 'h', 'hh', 's', 'ss']
        out = rng.choice(['', '', '', '[$-409]', '[$-F800]', '[h]:', '[Red]', '[mm]:'])
        if r() < 0.35:
            # quoted, escaped, padding or fill characters before the first date code
            out += rng.choice([lit(), lit() + lit(), '_(', '* ', '\\-', '"x"', '_-', '\\ ', '*-', '(', '-', '"d"', '_d', '\\m'])
        n = rng.choice([1, 1, 2, 3, 4, 6])
        nd = 0
        for i in range(n):
            t = rng.choice(toks)
            if r() < 0.2:
                t = t.upper()
            out += t
            nd += len(t)
            if i + 1 < n:
                out += rng.choice(['/', '-', ' ', ':', '.', ', ', '\\-', '\\ ', '_)'] + [lit()] * 3)
        if r() < 0.2:
            out += rng.choice(['.0', '.00']) if nd > 4 else ''
        if r() < 0.25:
            out += rng.choice([' AM/PM', '\\ AM/PM', ';@', '\\;@', '_)', ' A/P'])
        return out
    k = rng.choice(['num', 'num', 'num', 'num', 'gen', 'text', 'const'])
    if k == 'gen':
        return rng.choice(['General', 'General']) + rng.choice([lit(), lit(), ''])
    if k == 'text':
        return rng.choice(['@', '@' + lit(), lit() + '@', ';;;@', ';;;'])
    if k == 'const':
        return rng.choice(['"Yes";"Yes";"No"', '"d";"m"', '"On"', '\\d', '[Red]"hh:mm"'])
    secs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        b = rng.choice(['0', '#', '#,##0', '0.00', '0%', '0.0E+00', '# ?/?', '00000', '0,,', '???.?', '##0.0E+0', '(0)', '-0', '+0;-0'])
        secs.append((lit() if r() < 0.4 else '') + b + (lit() if r() < 0.4 else ''))
    return ';'.join(secs)


def gen_foreign(rng, v, glob=False):
    codes = [c for c in biff.FOREIGN_CODES if c not in biff.NOT_FOREIGN and c & 0xff != 9]
    if glob or v < 80:
        codes = [c for c in codes if c != 0x3C]
    return [rng.choice(codes), bytes(rng.randrange(256) for _ in range(rng.choice([0, 2, 4, 9, 20]))).hex()]


def gen_chart(rng, v):
    """records of an embedded chart, with its cache of plotted cells, view settings and texts, none of which are the sheet's"""
    def one():
        k = rng.choice(['any', 'any', 'begin', 'dim', 'num', 'lab', 'blank', 'view', 'scl', 'txo', 'pane', 'col', 'merge', 'breaks', 'note'])
        r, c = rng.randrange(5), rng.randrange(4)
        if k == 'any':
            return gen_foreign(rng, v, True)
        if k == 'begin':
            return [rng.choice([0x1002, 0x1033, 0x1034, 0x1025, 0x1066]), '00' * rng.choice([0, 4, 16])]
        if k == 'dim':
            d = struct.pack('<IIHHH', r, r + 40, c, c + 30, 0) if v >= 80 else struct.pack('<HHHHH', r, r + 40, c, c + 30, 0)
            return [0x200, d.hex()]
        if k == 'num':
            return [0x203, struct.pack('<HHHd', r, c, 0, rng.choice([1.5, -7.0])).hex()]
        if k == 'lab':
            return [0x204, (struct.pack('<HHHH', r, c, 0, 3) + b'\0' * (v >= 80) + b'abc').hex()]
        if k == 'blank':
            return [0x201, struct.pack('<HHH', r, c, 0).hex()]
        if k == 'view':
            return [0x23E, bytes(18 if v >= 80 else 10).hex()]
        if k == 'scl':
            return [0xA0, struct.pack('<HH', 3, 4).hex()]
        if k == 'txo':
            return [0x1B6, bytes(18).hex()]
        if k == 'pane':
            return [0x41, bytes([1, 0, 2, 0, 3, 0, 4, 0, 1, 0]).hex()]
        if k == 'col':
            return [0x7D, struct.pack('<HHHHHH', 0, 3, 999, 0, 1, 0).hex()]
        if k == 'merge':
            return [0xE5, struct.pack('<HHHHH', 1, r, r + 1, c, c + 1).hex()]
        if k == 'breaks':
            return [0x1B, struct.pack('<HHHH', 1, 3, 0, 255).hex()]
        return [0x1C, bytes(12).hex()]
    return [one() for _ in range(rng.randrange(6))]


def gen_sst(rng, wb, n, split):
    out = []
    for _ in range(n):
        t = strange(rng, wb, text(rng, wb, 300 if split or rng.random() < 0.2 else 20))
        if rng.random() < 0.015:
            t = (t or 'ab') * rng.choice([3, 10, 40])
        if rng.random() < 0.002:
            t = ((t[:80] or 'ab') * 32767)[:rng.choice([32767, 32768, 65535, 20000]) // (1 + any(ord(x) > 65535 for x in t))]
        s = {'t': t}
        if rng.random() < 0.35:
            s['w'] = 1
        elif rng.random() < 0.4:
            s['brk'] = 1
        if rng.random() < 0.3 and t:
            nu = biff.units(t)
            s['rich'] = [[p, rng.randrange(1, 6)] for p in sorted(set(rng.randrange(nu) for _ in range(rng.choice([1, 2, 3, 9] + [900] * (nu > 200)))))]
        if rng.random() < 0.25:
            s['pho'] = rng.choice([1, 10, 30, 100, 700] + [9000, 40000] * (rng.random() < 0.1))
        if rng.random() < 0.5:
            s['alt'] = [rng.randrange(2) for _ in range(rng.randrange(1, 4))]
        out.append(s)
    return out


def gen_cell(rng, wb, r, c, fmt, fstr_plan=None, kinds=None):
    v = wb['v']
    nx = len(wb['xfs']) if v >= 21 else len(wb['attrs'])
    xf = rng.randrange(nx)
    ks = ['num', 'num', 'lab', 'bool', 'err', 'blank', 'fnum', 'fbool', 'ferr', 'fempty', 'fstr']
    if v <= 21:
        ks += ['int', 'int']
    else:
        ks += ['rk', 'rk']
    if v >= 50:
        ks += ['rstr', 'mulrk', 'mulblank']
    if v >= 80 and wb.get('sst'):
        ks += ['sst'] * 5
    k = rng.choice(kinds or ks)
    comp = [rng.choice(['array', 'shr', 'table', 'array2', 'table2', 'table3'])] if rng.random() < 0.25 else []
    if k == 'num':
        it = [k, r, c, xf, dbl(rng)]
        if rng.random() < 0.05 and v > 21:
            it.append('00ff')
        return it
    if k == 'int':
        return [k, r, c, xf, rng.choice([0, 1, 65535, rng.randrange(65536)])]
    if k == 'rk':
        return [k, r, c, xf, rk(rng)]
    if k == 'mulrk':
        n = min(256 - c, rng.choice([1, 2, 3, 5]))
        return [k, r, c, [[rng.randrange(nx), rk(rng)] for _ in range(n)]]
    if k == 'lab':
        t = fits(wb, strange(rng, wb, text(rng, wb, 60)), 250)
        if rng.random() < 0.004 and v >= 30 and t:
            t = (t[:80] * 2000)[:rng.choice([255, 256, 300, 600, 1000])]
        if v >= 80 and rng.random() < 0.15:
            t = t if rng.random() < 0.7 else ''
            return [k, r, c, xf, t, rng.randrange(2), rng.choice(['rich', 'pho', 'both']) if t else 'noopt']
        return [k, r, c, xf, t] + ([1] if rng.random() < 0.3 else [])
    if k == 'rstr':
        t = fits(wb, strange(rng, wb, text(rng, wb, 40, 1)), 250) or 'x'
        if rng.random() < 0.02:
            t = (t * 250)[:rng.choice([130, 200, 255])] if v < 80 else (t * 300)[:rng.choice([200, 256, 300])]
        n = len(t)
        return [k, r, c, xf, t, [[p, rng.randrange(1, 5)] for p in sorted(set(rng.randrange(n) for _ in range(rng.choice([1, 2, 4]))))]]
    if k == 'sst':
        return [k, r, c, xf, rng.randrange(len(wb['sst']))]
    if k == 'bool':
        return [k, r, c, xf, rng.randrange(2), int(rng.random() < 0.2)]
    if k == 'err':
        return [k, r, c, xf, rng.choice([0, 7, 15, 23, 29, 36, 42] * 4 + [43]), int(rng.random() < 0.2)]
    if k == 'blank':
        return [k, r, c, xf]
    if k == 'mulblank':
        n = min(256 - c, rng.choice([1, 2, 3, 5]))
        return [k, r, c, [rng.randrange(nx) for _ in range(n)]]
    if k == 'fnum':
        return [k, r, c, xf, dbl(rng)] + comp
    if k == 'fbool':
        return [k, r, c, xf, rng.randrange(2)] + comp
    if k == 'ferr':
        return [k, r, c, xf, rng.choice([0, 7, 15, 23, 29, 36, 42])] + comp
    if k == 'fempty':
        return [k, r, c, xf]
    t = fits(wb, strange(rng, wb, text(rng, wb, 300 if fstr_plan else 40, 1)), 60000 if v >= 30 else 250) or 'y'
    if rng.random() < 0.004 and v >= 30:
        t = (t[:80] * 32767)[:rng.choice([255, 256, 8192, 20000, 32767]) // (2 if v < 80 or any(ord(x) > 65535 for x in t) else 1)]
    plan = None
    if fstr_plan or (fstr_plan is None and rng.random() < 0.3):
        plan = {'sizes': [rng.choice([12, 13, 14, 15, 20, 31, 60, 100, 8224]) for _ in range(rng.randrange(1, 5))],
                'alt': [rng.randrange(2) for _ in range(rng.randrange(1, 4))], 'w': rng.randrange(2)}
        if wb['v'] < 80 and len(set(t.encode(biff.enc_of(wb), 'replace'))) and biff.enc_of(wb) in ('cp932', 'cp949', 'cp936'):
            pass
    pre = rng.choice([None, None, None, 'array', 'shr', 'table', 'array2', 'table2', 'table3'])
    return [k, r, c, xf, t, plan, pre]


def gen_items(rng, wb, sh, fmt, maxcells, arrival, notes, hlinks, foreign, charts, far, fstr_plan, min_cells, dup):
    v = wb['v']
    n = max(min_cells, rng.choice([0, 1, 3, 8, 15, 25, maxcells]))
    n = min(n, maxcells)
    nr, nc = rng.choice([1, 3, 6, 12, 20]), rng.choice([1, 2, 4, 8, 12])
    arrival = arrival or rng.choice(['rows', 'rows', 'shuffle', 'rev', 'cols', 'swap', 'swap'])
    r0, c0 = rng.choice([0, 0, 0, 1, 5]), rng.choice([0, 0, 0, 1, 3])
    cells = {}
    while n > 0 and len(cells) < min(n, nr * nc):
        cells[(r0 + rng.randrange(nr), c0 + rng.randrange(nc))] = 1
    pos = sorted(cells)
    if n and rng.random() < far:
        maxr = 65535 if v >= 80 else 16383
        z = rng.choice(['r', 'c', 'c'])
        if z == 'r' and nc <= 4:
            pos.append((rng.choice([maxr, maxr, 255, 256, 4000] + [32768, 40000] * (v >= 80)), rng.randrange(nc)))
            if rng.random() < 0.4:
                pos.append((pos[-1][0] - 1, rng.randrange(nc)))
        elif z == 'c':
            pos.append((rng.randrange(nr), rng.choice([255, 254, 100])))
    if arrival == 'shuffle':
        rng.shuffle(pos)
    elif arrival == 'rev':
        pos.reverse()
    elif arrival == 'cols':
        pos.sort(key=lambda p: (p[1], p[0]))
    elif arrival == 'swap':
        for _ in range(rng.choice([1, 2, 3])):
            if len(pos) > 1:
                i, j = rng.randrange(len(pos)), rng.randrange(len(pos))
                pos[i], pos[j] = pos[j], pos[i]
    items = []
    seen_rich = set()
    covered = set()

    def add(it):
        tgt = [(a, b) for a, b, *_ in biff.cells_of(wb, it)]
        if any(p in seen_rich for p in tgt):
            return
        if it[0] == 'rstr' or (it[0] == 'sst' and wb['sst'][it[4]].get('rich')):
            seen_rich.update(tgt)
        if not dup and any(p in covered for p in tgt):
            return
        covered.update(tgt)
        items.append(it)
    for r, c in pos:
        add(gen_cell(rng, wb, r, c, fmt, fstr_plan))
        if dup and rng.random() < 0.06:
            add(gen_cell(rng, wb, r, c, fmt, fstr_plan))
    if dup and pos and rng.random() < 0.2:
        r, c = rng.choice(pos)
        add(gen_cell(rng, wb, r, c, fmt, fstr_plan))
    if v == 21 and rng.random() < 0.3:
        sh['ixfe'] = 1
    if rng.random() < 0.7:
        sh['dim'] = rng.choice([[nr, nc], [0, 0], [1, 1], [r0 + nr, c0 + nc], [200, 30]])
    if charts or (charts is None and v >= 50 and rng.random() < 0.06):
        items.insert(rng.randrange(len(items) + 1), ['chart', gen_chart(rng, v)])
    if foreign and rng.random() < 0.4:
        for _ in range(rng.randrange(1, 5)):
            code, h = gen_foreign(rng, v)
            items.insert(rng.randrange(len(items) + 1), ['foreign', code, h])
    if fmt:
        gen_fmt_items(rng, wb, sh, items, notes, hlinks)
    elif v >= 30 and rng.random() < 0.15:
        gen_fmt_items(rng, wb, sh, items, notes, hlinks)
    sh['items'] = items


def gen_note8(rng, wb, oid, r, c, split):
    t = strange(rng, wb, text(rng, wb, 300 if split else 40))
    if rng.random() < 0.01:
        t = ((t[:80] or 'ab') * 20000)[:rng.choice([255, 256, 4096, 8000, 16000])]
    nu = biff.units(t)
    n = {'oid': oid, 'r': r, 'c': c, 'text': t, 'author': text(rng, wb, 20), 'show': rng.randrange(2), 'rh': rng.randrange(2), 'ch': rng.randrange(2),
         'runs': [[p, rng.randrange(6)] for p in sorted(set([0] + [rng.randrange(nu) for _ in range(rng.choice([0, 1, 2, 20]))]))] if t else []}
    if rng.random() < 0.15:
        n['ends'] = rng.choice([2, 3, 12])
    if rng.random() < 0.3:
        n['drawing'] = 1
    if rng.random() < 0.3:
        n['aw'] = 1
    if rng.random() < 0.2:
        n['nopad'] = 1
    if split or rng.random() < 0.4:
        n['sizes'] = [rng.choice([1, 2, 3, 5, 10, 40, 200]) for _ in range(rng.randrange(1, 4))]
        n['rsizes'] = [rng.choice([1, 2, 5, 50]) for _ in range(rng.randrange(1, 3))]
    n['alt'] = [rng.randrange(2) for _ in range(rng.randrange(1, 4))]
    if rng.random() < 0.1:
        n['rot'] = rng.randrange(4)
    return n


def gen_fmt_items(rng, wb, sh, items, notes, hlinks):
    v = wb['v']
    r = rng.randrange
    out = []
    nx = max(1, len(wb['xfs']))

    def some(p):
        return rng.random() < p
    if v < 30:
        nx = min(nx, 62)
        odd = sh.get('ixfe')
        if some(0.6):
            for rowx in sorted(set(rng.choice([0, 1, 2, 5, 9, 16383, r(40)]) for _ in range(r(5)))):
                n = r(3)
                hx = r(2) if n and v == 21 else 0
                out.append(['rowb2', {'r': rowx, 'height': rng.choice([255, 300, 0x7FFF, r(0x8000)]), 'defh': r(2), 'hasxf': hx, 'len': n,
                                      'xf': r(nx) & (~1 if odd else -1), 'junk': rng.choice([0, 0, 1])}])
        if some(0.5):
            for _ in range(r(4)):
                a = rng.choice([0, 1, 3, 250, 255])
                out.append(['colw', {'a': a, 'b': min(255, a + rng.choice([0, 1, 3, 256])), 'width': r(65536)}])
        if some(0.4) and v == 21:
            for _ in range(1 + r(2)):
                a = rng.choice([0, 1, 3, 250, 255])
                out.append(['coldef', {'a': a, 'xfs': [r(nx) & (~1 if odd else -1) for _ in range(min(256 - a, rng.choice([1, 2, 5])))]}])
        if some(0.5):
            out.append(['win2b2', {'bits': [r(2) for _ in range(6)], 'r': r(16384), 'c': r(256), 'rgb': [r(256) for _ in range(3)]}])
        if some(0.3):
            out.append(['pane', [r(65536), r(65536), r(16384), r(256), r(4)]])
        if some(0.3):
            out.append(['defcol', r(65536)])
        rng.shuffle(out)
        for it in out:
            items.insert(rng.randrange(len(items) + 1), it)
        if notes or (notes is None and some(0.35)):
            for a, b in sorted(set((r(20), r(10)) for _ in range(rng.choice([1, 1, 2, 4])))):
                t = fits(wb, strange(rng, wb, text(rng, wb, 60)), 5000)
                items.insert(rng.randrange(len(items) + 1), ['note', {'r': a, 'c': b, 'text': t, 'sizes': [rng.choice([1, 2, 7, 30, 2048])]}])
        return
    if some(0.6):
        for rowx in sorted(set(rng.choice([0, 1, 2, 5, 9, 16383, r(40)]) for _ in range(r(5)))):
            if v < 80 and some(0.04):
                rowx = rng.choice([16384, 32768, 65535])
            out.append(['row', {'r': rowx, 'height': rng.choice([255, 300, 0x7FFF, r(0x8000)]), 'defh': r(2), 'ol': r(8), 'olse': r(2), 'hidden': r(2),
                                'hm': r(2), 'hasxf': r(2), 'xf': rng.choice([0, 15, r(nx), 0xFFF]), 'above': r(2), 'below': r(2)}])
    if some(0.5):
        for _ in range(r(4)):
            a = rng.choice([0, 1, 3, 250, 255])
            b = min(256, a + rng.choice([0, 1, 3, 256]))
            if some(0.04):
                b = rng.choice([257, 300, 65535])
            out.append(['col', {'a': a, 'b': b, 'width': r(65536), 'xf': r(nx), 'hidden': r(2), 'b1': r(2), 'ol': r(8), 'collapsed': r(2)}])
    if some(0.4):
        l = []
        for _ in range(rng.choice([1, 2, 5])):
            a, c = r(20), r(12)
            l.append([a, a + 1 + r(4), c, c + 1 + r(4)])
        if some(0.05):
            l.append([0, 65536 if v >= 80 else 16384, 2, 3])
        for k in range(0, len(l), 2):
            out.append(['merge', l[k:k + 2]])
        if v >= 80 and some(0.01):
            # as many as one record holds
            a, c = r(20), r(12)
            out.append(['merge', [[a + k, a + k + 1, c, c + 2] for k in range(rng.choice([255, 256, 1024, 1027]))]])
    if v >= 80 and some(0.2):
        def rg():
            a, c = r(20), r(12)
            return [a, a + 1 + r(4), c, c + 1 + r(4)]
        out.append(['labelranges', {'rows': [rg() for _ in range(r(3))], 'cols': [rg() for _ in range(r(3))]}])
    if some(0.25):
        out.append(['hpb', [[r(100) if some(0.8) else rng.choice([16383, 32767, 32768, 65535]), r(10), 10 + r(246)] for _ in range(rng.choice([0, 1, 2, 3, 40]))]])
    if some(0.25):
        out.append(['vpb', [[r(256), r(10), rng.choice([10 + r(200), 32768, 65535])] for _ in range(rng.choice([0, 1, 2, 3, 40]))]])
    if some(0.5):
        out.append(['win2', {'bits': [r(2) for _ in range(12)], 'r': r(65536), 'c': r(256), 'grid': rng.choice([0x40, 8, 63]),
                             'pbz': rng.choice([0, 60, 100, 9, 10, 400, 401, r(600)]), 'nz': rng.choice([0, 60, 100, 9, 10, 400, 401, r(600)]),
                             'rgb': rng.choice([[r(256) for _ in range(3)], [128, 128, 128], [0, 0, 0], [200, 10, 60]])}])
    if some(0.4):
        out.append(['scl', rng.choice([[1, 1], [3, 4], [1, 10], [4, 1], [1, 11], [5, 1], [7, 3], [1, 0], [r(500), 1 + r(400)]])])
    if some(0.3):
        out.append(['pane', [r(65536), r(65536), r(65536), r(256), r(4)]])
    if some(0.4):
        d = {'h': r(65536), 'mismatch': r(2), 'hidden': r(2), 'above': r(2), 'below': r(2)}
        if some(0.1):
            d = {'h': d['h'], 'mismatch': 0, 'hidden': 0, 'above': 0, 'below': 0, 'short': 1}
        out.append(['defrow', d])
    if some(0.3):
        out.append(['defcol', r(65536)])
    if some(0.2):
        out.append(['stdw', r(65536)])
    if some(0.06):
        if v <= 21:
            a = 1 + r(255)
            out.append(['odd', rng.choice([[0x24, bytes([a, r(a), r(256), r(256)]).hex()],
                                           [8, (struct.pack('<H', 16384 + r(49152)) + bytes(r(256) for _ in range(rng.choice([11, 16])))).hex()]])])
        elif v < 80 and some(0.5):
            out.append(['odd', [0x208, (struct.pack('<H', 16384 + r(49152)) + bytes(r(256) for _ in range(14))).hex()]])
        else:
            out.append(['stdw', r(65536), bytes(r(256) for _ in range(rng.choice([1, 2, 8]))).hex()])
    if some(0.2):
        out.append(['gcw', [r(2) for _ in range(256)]])
    if v >= 80 and some(0.15):
        for _ in range(rng.choice([1, 1, 3])):
            rs = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                a, c = r(20), r(12)
                rs.append([a, a + 1 + r(4), c, c + 1 + r(4)])
            out.append(['condfmt', {'ranges': rs, 'recalc': r(2), 'cfs': [gen_cf(rng) for _ in range(rng.choice([1, 1, 2, 3]))]}])
    if some(0.2):
        for _ in range(rng.choice([1, 2, 3])):
            d = {'k': rng.choice(['scroll', 'combo', 'list', 'group', 'macro', 'pict', 'plain', 'textbox', 'antique']), 'oid': 2000 + r(20)}
            if d['k'] == 'textbox':
                d['text'] = text(rng, wb, 20)
            out.append(['obj', d])
    rng.shuffle(out)
    for it in out:
        items.insert(rng.randrange(len(items) + 1), it)
    if notes is None:
        notes = some(0.35)
    if notes:
        ncell = rng.choice([1, 1, 2, 4])
        pos = sorted(set((r(20), r(10)) if some(0.95) else (rng.choice([16383, 255, 256] + [32768, 65535] * (v >= 80)), rng.choice([0, 255])) for _ in range(ncell)))
        rng.shuffle(pos)
        if v >= 80:
            base = rng.choice([1, 100, 1024, 255, 32767, 65530])
            lst = [gen_note8(rng, wb, base + i, a, b, notes == 'split') for i, (a, b) in enumerate(pos)]
            items.append(['notes8', {'list': lst, 'interleave': int(some(0.4)), 'rev': int(some(0.3))}])
        else:
            for a, b in pos:
                t = fits(wb, strange(rng, wb, text(rng, wb, 300 if notes == 'split' else 60)), 5000)
                items.insert(rng.randrange(len(items) + 1), ['note', {'r': a, 'c': b, 'text': t, 'sizes': [rng.choice([1, 2, 7, 30, 2048])
                                                                                                       for _ in range(rng.randrange(1, 4))]}])
    if hlinks is None:
        hlinks = some(0.25) and v >= 80
    if hlinks and v >= 80:
        for _ in range(rng.choice([1, 2, 3])):
            a, c = (r(20), r(10)) if some(0.95) else (rng.choice([255, 32766, 65532]), rng.choice([3, 254]))
            k = rng.choice(['url', 'url', 'url', 'file', 'file', 'unc', 'workbook', 'unknown', 'other'])
            d = {'r1': a, 'r2': a + (rng.choice([0, 0, 1, 3]) if some(0.98) or a > 30 else rng.choice([254, 255, 256, 300])), 'c1': c, 'c2': c + rng.choice([0, 0, 1]), 'kind': k}
            if some(0.4):
                d['desc'] = text(rng, wb, 12, 1)
            if some(0.3):
                d['target'] = text(rng, wb, 8, 1)
            if k == 'url':
                d['url'] = 'http://' + text(rng, wb, 20)
                d['extra'] = r(2)
            elif k == 'unc':
                d['url'] = '\\\\srv\\' + text(rng, wb, 10)
            elif k == 'file':
                d['abs'] = r(2)
                d['up'] = r(3)
                d['short'] = 'a%d.xls' % r(100)
                if some(0.6):
                    d['long'] = text(rng, wb, 20, 1)
            if some(0.08):
                d['junk'] = rng.choice(['0000', '4100', '00', '56001200'])
            if k == 'workbook' or some(0.3) and k != 'other':
                d['mark'] = 'Sheet1!' + text(rng, wb, 6)
            if some(0.3):
                d['tip'] = text(rng, wb, 15, 1)
            items.insert(rng.randrange(len(items) + 1), ['hlink', d])


def gen_cf(rng):
    r = rng.randrange
    P = struct.pack
    ref = b'\x44' + P('<HH', r(20), r(10))
    refn = b'\x4c' + P('<HH', r(65536), 0xC000 | r(256))
    area = b'\x25' + P('<HHHH', 1, 5, r(5), 5 + r(5))
    arean = b'\x2d' + P('<HHHH', 0, 5, 0xC000, 0xC001)
    def r3():
        return b'\x3a' + P('<HHH', r(3), r(9), r(9))

    def a3():
        return b'\x3b' + P('<HHHHH', r(3), 1, 1 + r(6), 1, 1 + r(3))
    num = b'\x1e' + P('<H', r(1000))
    dblt = b'\x1f' + P('<d', 2.5)
    s = b'\x17\x02\x00ab'
    ws = b'\x17\x01\x01' + '\u0416'.encode('utf-16-le')
    forms = [num, dblt, ref, refn, ref + num + b'\x0b', refn + num + b'\x03' + s + b'\x08', area + b'\x42\x01\x04\x00', arean + b'\x19\x10\x00\x00', s, ws,
             ref + b'\x13', b'\x1d\x01', b'\x1c\x2a', num + num + b'\x41\x27\x00', b'\x23\x01\x00\x00\x00', b'\x2a\0\0\0\0', num + b'\x15', ref + b'\x14' + b'\x12',
             ref + ref + b'\x11', area + area + b'\x0f', ref + ref + b'\x10\x15', ref + area + b'\x22\x02\x1d\x00' + b'\x11', b'\x16' + num + b'\x42\x02\x04\x00',
             num + b'\x19\x02\x07\x00' + ref + b'\x19\x08\x03\x00' + num + b'\x42\x03\x01\x00', num + b'\x19\x04\x01\x00\x04\x00\x09\x00' + ref + b'\x42\x02\x64\x00',
             b'\x19\x40\x00\x01' + num, b'\x39\x00\x00\x01\x00\x00\x00', b'\x3a' + P('<HHH', r(3), 1, 1), b'\x3b' + P('<HHHHH', r(3), 1, 3, 1, 2), b'\x29\x09\x00' + area,
             b'\x44' + P('<HH', r(65536), r(4) << 14 | r(256)), b'\x45' + P('<HHHH', r(65536), r(65536), r(4) << 14 | r(256), r(4) << 14 | r(256)) + b'\x42\x01\x04\x00',
             b'\x3a' + P('<HHH', r(3), r(65536), r(4) << 14 | r(256)), b'\x3b' + P('<HHHHH', r(3), r(65536), r(65536), r(4) << 14 | r(256), r(4) << 14 | r(256)),
             r3() + r3() + b'\x11', r3() + r3() + b'\x0f' + r3() + b'\x10', r3() + ref + b'\x10', r3() + r3() + b'\x10' + r3() + b'\x11', a3() + r3() + b'\x0f' + a3() + b'\x11']
    return {'t': r(2) + 1, 'op': r(9), 'font': r(2), 'bord': r(2), 'patt': r(2), 'fill': rng.choice([0, 0, 255, 64]),
            'f1': rng.choice(forms + [b'']).hex(), 'f2': rng.choice(forms + [b''] * 20).hex()}


def gen_names(rng, wb, n, kinds=None):
    v = wb['v']
    r = rng.randrange
    ns = len(wb['sheets'])
    real = [i for i, s in enumerate(wb['sheets']) if s.get('type', 0) == 0]
    names = []
    used = set()
    words = ['alpha', 'Beta', 'GAMMA', 'total', 'x_1', 'dup', 'Dup', 'DUP']
    for i in range(n):
        scope = rng.choice([None, None] + list(range(ns)))
        nm = rng.choice(words) if rng.random() < 0.7 else (fits(wb, text(rng, wb, 12, 1), 100) or 'nm')
        d = {}
        if rng.random() < 0.08 and v >= 80:
            nm = fits(wb, rng.choice(['Stra\xdfe', 'STRASSE', '\u0130x', '\u03a3\u03a3', '\u03c3\u03c2', '\xc9t\xe9', 'A\u0345']), 100) or nm
        if rng.random() < 0.15:
            nm = rng.choice(['Print_Area', 'Print_Titles', '_FilterDatabase', 'Criteria', 'Database'])
            d['builtin'] = 1
        if (nm.lower(), scope) in used:
            continue
        used.add((nm.lower(), scope))
        d.update(name=nm, scope=scope)
        for k in ('hidden', 'func', 'vbasic', 'complex'):
            if rng.random() < 0.1:
                d[k] = 1
        if rng.random() < 0.05:
            d['macro'] = 1
        if rng.random() < 0.04:
            d['binary'] = 1
        if rng.random() < 0.1:
            d['group'] = r(64)
        if rng.random() < 0.1:
            d['key'] = r(128)
        if v >= 80 and rng.random() < 0.3:
            d['w'] = 1
        k = rng.choice(kinds or ['ref', 'ref', 'ref', 'area', 'area', 'area', 'num', 'int', 'str', 'bool', 'err', 'none', 'relref', 'name'])
        rmax, cmax = (65535 if v >= 80 else 16383), 255
        if k in ('ref', 'area', 'relref'):
            q = rng.random()
            if q < 0.8:
                s1 = rng.choice(real)
                sr = [s1, s1]
            elif q < 0.86 and len(real) > 1:
                a, b = sorted(rng.sample(real, 2))
                sr = [a, b]
            elif q < 0.9:
                sr = 'del'
            elif q < 0.94 and [i for i in range(ns) if i not in real]:
                s1 = rng.choice([i for i in range(ns) if i not in real])
                sr = [s1, s1]
            elif q < 0.97:
                sr = 'ext'
            else:
                sr = [real[0], real[0]]
            a, c = rng.choice([0, 1, 3, 8, r(25)]), rng.choice([0, 1, 3, r(14)])
            if k == 'area':
                b, e = min(rmax, a + rng.choice([0, 0, 2, 10, 70000])), min(cmax, c + rng.choice([0, 0, 1, 5, 300]))
                f = [k, sr, a, c, b, e]
            else:
                f = [k, sr, a, c]
                if k == 'relref' and rng.random() < 0.6:
                    f.append(1 + r(3))
                    if rng.random() < 0.5:
                        f = ['relarea', sr, a, c, min(rmax, a + r(4)), min(cmax, c + r(4)), 1 + r(15)]
        elif k == 'num':
            f = [k, struct.pack('<d', rng.choice([0.5, -2.25, 1e10, 3.0])).hex()]
        elif k == 'int':
            f = [k, r(65536)]
        elif k == 'str':
            f = [k, fits(wb, text(rng, wb, 12), 100)]
        elif k == 'bool':
            f = [k, r(2)]
        elif k == 'err':
            f = [k, rng.choice([0, 7, 15, 23, 29, 36, 42])]
        elif k == 'name':
            if not names:
                f = ['none']
            else:
                f = [k, r(len(names))]
        else:
            f = ['none']
        d['f'] = f
        names.append(d)
    wb['names'] = names
    if v >= 80:
        sup = ['self']
        if any(n['f'][0] in ('ref', 'area', 'relref', 'relarea') and n['f'][1] == 'ext' for n in names) or rng.random() < 0.2:
            sup.append('ext')
        if rng.random() < 0.3:
            sup.append('addin')
            wb['addins'] = ['FN%d' % i for i in range(rng.randrange(3))]
        if rng.random() < 0.12:
            sup.append(rng.choice(['dde', 'cutext']))
        if rng.random() < 0.12:
            sup.append('bigext')
            wb['bigext'] = {'names': [text(rng, wb, 12, 1) for _ in range(rng.choice([1, 2, 5, 12]))], 'wide': r(2), 'cuts': [14 + r(150) for _ in range(rng.choice([1, 2, 3]))]}
        rng.shuffle(sup)
        wb['supbooks'] = sup
        if rng.random() < 0.3:
            wb['xnames'] = [[r(len(sup)), text(rng, wb, 12, 1) or 'X'] for _ in range(rng.randrange(1, 4))]
        if rng.random() < 0.3:
            wb['xti_extra'] = [[r(ns), r(ns)] for _ in range(rng.randrange(1, 20))]
            wb['xti_extra'] = [[min(x), max(x)] for x in wb['xti_extra']]
            dedup = []
            for x in wb['xti_extra']:
                if x not in dedup:
                    dedup.append(x)
            wb['xti_extra'] = dedup
        if rng.random() < 0.3:
            wb['xti_rev'] = 1
        if rng.random() < 0.04:
            wb['xti_pad'] = rng.choice([62, 255, 256, 1300, 5000])
        if rng.random() < 0.3:
            wb['xti_sizes'] = [rng.choice([2, 3, 5, 8, 14, 20]) for _ in range(rng.randrange(1, 4))]
    else:
        if rng.random() < 0.3:
            wb['ext57'] = [[r(4), rng.choice([['b', 1], ['a', 2]])] for _ in range(rng.randrange(1, 3))]
