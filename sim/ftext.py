"""The text of a formula, and the value of a constant one.

The text xlrd hands out for a defined name's formula is judged by reading it: it is parsed with Excel's own rules of
precedence and compared with the tree the formula was made from, so that redundant brackets or the choice of quotes do
not matter, and a lost bracket, operand or operator does.
"""
import re
import struct

from . import biff

RANK = {'<': 10, '<=': 10, '=': 10, '>=': 10, '>': 10, '<>': 10, '&': 20, '+': 30, '-': 30, '*': 40, '/': 40, '^': 50,
        ',': 80, ' ': 84, ':': 88}
OPERATOR = re.compile('<=|>=|<>|[-<=>&+*/^%,: ]')
CALL = re.compile(r'([A-Z][A-Z0-9.]*)\(')
NAME = re.compile(r'[^\W\d][\w.]*$')
LOST = r"(?:'[^'!]*'|<<\w+>>|[\w?;.]+)!"
ERRORS = {0: '#NULL!', 7: '#DIV/0!', 15: '#VALUE!', 23: '#REF!', 29: '#NAME?', 36: '#NUM!', 42: '#N/A'}


class NoParse(Exception):
    pass


def colname(c):
    s = ''
    c += 1
    while c:
        c, d = divmod(c - 1, 26)
        s = chr(65 + d) + s
    return s


def quoted(s):
    return ["'" + s.replace("'", "''") + "'", s]


def sheet_part(wb, sr, names):
    """-> regular expression for the sheets of a reference"""
    if not isinstance(sr, (list, tuple)):
        return LOST
    t = [biff.all_to_real(wb, s) for s in sr]
    if any(s is None for s in t) or t[0] > t[1]:
        return LOST
    a, b = (names[s] for s in t)
    if t[0] == t[1]:
        e = quoted(a)
    else:
        e = [p + ':' + q for p in quoted(a) for q in quoted(b)] + quoted(a + ':' + b)
    return '(?:' + '|'.join(re.escape(x) for x in e) + ')!'


def relative(wb, e):
    """-> (row, row end, column, column end, their four flags) as the reference means them"""
    fl = (e[4] if len(e) > 4 and isinstance(e[4], int) else 3) if e[0] == 'relref' else e[6] if e[0] == 'relarea' else 0
    r1, c1 = e[2], e[3]
    r2, c2 = (e[4], e[5]) if e[0] in ('area', 'relarea') else (r1, c1)
    f1 = f2 = (fl & 1, fl >> 1 & 1)
    if e[0] == 'relarea':
        f2 = (fl >> 2 & 1, fl >> 3 & 1)
    rows = 16 if wb['v'] >= 80 else 14

    def signed(x, bits, rel):
        return x - (1 << bits) if rel and x >> bits - 1 else x
    return (signed(r1, rows, f1[0]), signed(r2, rows, f2[0]), signed(c1, 8, f1[1]), signed(c2, 8, f2[1]), f1[0], f2[0], f1[1], f2[1])


def cell_part(wb, e):
    r1, r2, c1, c2, a, b, c, d = relative(wb, e)
    if a or b or c or d:
        def one(n, x, rel):
            return (n + ('[%d]' % x if x else '')) if rel else '%s%d' % (n, x + 1)
        p = one('R', r1, a) + one('C', c1, c)
        q = one('R', r2, b) + one('C', c2, d)
    else:
        p = '$%s$%d' % (colname(c1), r1 + 1)
        q = '$%s$%d' % (colname(c2), r2 + 1)
    z = [p + ':' + q] + ([p] if p == q else [])
    return '(?:' + '|'.join(re.escape(x) for x in z) + ')'


def leaf(wb, e, names, defined):
    """-> regular expression of the texts that say what e is"""
    k = e[0]
    if k in ('ref', 'area', 'relref', 'relarea'):
        return sheet_part(wb, e[1], names) + cell_part(wb, e)
    if k == 'num':
        x = struct.unpack('<d', bytes.fromhex(e[1]))[0]
        return '(?:' + '|'.join(re.escape(s) for s in sorted({repr(x), repr(x)[:-2] if repr(x).endswith('.0') else repr(x)}, key=len)[::-1]) + ')'
    if k == 'int':
        return r'%d(?:\.0)?' % e[1]
    if k == 'str':
        return re.escape('"' + e[1].replace('"', '""') + '"')
    if k == 'bool':
        return ('FALSE', 'TRUE')[e[1]] + r'(?!\()'
    if k == 'err':
        return '"?' + re.escape(ERRORS.get(e[1], '#')) + '"?'
    if k in ('name', 'namex'):
        d = defined[e[1]]
        s = re.escape(d['name'])
        if d['scope'] >= 0:
            s = '(?:' + '|'.join(re.escape(x) for x in quoted(names[d['scope']])) + ')!' + s
        if k == 'namex':
            s = '(?:' + s + r'|<<Name #\d+ in external\(\?\) file #-?\d+>>)'
        return s
    if k in ('arr', 'referr'):
        return r'(?:\?|\{[^}]*\}|(?:' + LOST + ')?#REF!)'
    return None


def tree(wb, e, names, defined):
    k = e[0]
    if k in ('paren', 'space', 'vol', 'mem'):
        return tree(wb, e[1], names, defined)
    if k == 'un':
        return ('un', e[1], tree(wb, e[2], names, defined))
    if k == 'bin':
        return ('bin', e[1], tree(wb, e[2], names, defined), tree(wb, e[3], names, defined))
    if k == 'sum1':
        return ('call', 'SUM', (tree(wb, e[1], names, defined),))
    if k == 'fv' and e[1] == 255:
        return ('leaf', r'\?')
    if k in ('fn', 'fv'):
        return ('call', biff.FUNCTION_NAMES[e[1]], tuple(tree(wb, x, names, defined) for x in e[2]))
    if k == 'miss':
        return ('miss',)
    if k in ('union', 'range', 'isect'):
        t = None
        for x in e[1]:
            u = tree(wb, x, names, defined)
            t = u if t is None else ('bin', {'union': ',', 'range': ':', 'isect': ' '}[k], t, u)
        return t
    if k == 'expr':
        return tree(wb, e[1], names, defined)
    x = leaf(wb, e, names, defined)
    if x is None:
        raise NoParse('kind %r' % k)
    return ('leaf', x)


def leaves(t):
    if t[0] == 'leaf':
        return {t[1]}
    if t[0] == 'call':
        return set().union(*[leaves(x) for x in t[2]]) if t[2] else set()
    return set().union(*[leaves(x) for x in t if isinstance(x, tuple)]) if len(t) > 1 else set()


def parse(s, lv):
    """Text -> tree, with the texts of leaves that match one of lv; -> NoParse"""
    lv = [re.compile(x) for x in sorted(lv)]
    pos = [0]

    def operand(union):
        p = pos[0]
        best, n = None, 0
        for x in lv:
            m = x.match(s, p)
            if m and m.end() - p > n:
                best, n = m.group(), m.end() - p
        c = CALL.match(s, p)
        if c and c.end() - p > n:
            pos[0] = c.end()
            args = []
            if s[pos[0]:pos[0] + 1] == ')':
                pos[0] += 1
                return ('call', c.group(1), ())
            while True:
                if s[pos[0]:pos[0] + 1] in (',', ')') and not any(x.match(s, pos[0]) for x in lv):
                    args.append(('miss',))
                else:
                    args.append(expression(0, False))
                z = s[pos[0]:pos[0] + 1]
                pos[0] += 1
                if z == ')':
                    return ('call', c.group(1), tuple(args))
                if z != ',':
                    raise NoParse('%r at %d' % (z, pos[0] - 1))
        if best is not None:
            pos[0] += n
            return ('leaf', best)
        z = s[p:p + 1]
        if z == '(':
            pos[0] += 1
            t = expression(0, True)
            if s[pos[0]:pos[0] + 1] != ')':
                raise NoParse('no ) at %d' % pos[0])
            pos[0] += 1
            return t
        if z and z in '+-':
            pos[0] += 1
            return ('un', z, expression(70, union))
        raise NoParse('%r at %d' % (z, p))

    def expression(least, union):
        t = operand(union)
        while True:
            m = OPERATOR.match(s, pos[0])
            if not m:
                return t
            o = m.group()
            if o == '%':
                if 60 <= least:
                    return t
                pos[0] += 1
                t = ('un', '%', t)
                continue
            if o == ',' and not union or RANK[o] <= least:
                return t
            pos[0] = m.end()
            t = ('bin', o, t, expression(RANK[o], union))
    t = expression(0, True)
    if pos[0] != len(s):
        raise NoParse('rest %r' % s[pos[0]:][:30])
    return t


def same(t, u):
    if t[0] != u[0] or len(t) != len(u):
        return False
    if t[0] == 'leaf':
        return re.fullmatch(t[1], u[1]) is not None
    if t[0] == 'call':
        return t[1] == u[1] and len(t[2]) == len(u[2]) and all(same(a, b) for a, b in zip(t[2], u[2]))
    return all(same(a, b) if isinstance(a, tuple) else a == b for a, b in zip(t[1:], u[1:]))


def check_text(wb, f, text, names, defined):
    """-> None, or what is wrong with the text of formula f"""
    for x in biff.expr_leaves(f[1]) if f[0] == 'expr' else [f]:
        if x[0] in ('name', 'namex') and not NAME.match(defined[x[1]]['name']):
            return None          # no name that could be told from the rest of the text
    t = tree(wb, f, names, defined)
    try:
        u = parse(text, leaves(t))
    except NoParse as e:
        return 'the text %r of %r cannot be read: %s' % (text, f, e)
    if not same(t, u):
        return 'the text %r of %r means something else' % (text, f)
    return None


UNKNOWN = object()


class Err(object):
    def __init__(self, code):
        self.code = code


def value(wb, e):
    """The value of a constant expression: float, str, bool, Err, or UNKNOWN"""
    k = e[0]
    if k in ('paren', 'space', 'vol'):
        return value(wb, e[1])
    if k == 'num':
        return struct.unpack('<d', bytes.fromhex(e[1]))[0]
    if k == 'int':
        return float(e[1])
    if k == 'str':
        return e[1]
    if k == 'bool':
        return bool(e[1])
    if k == 'err':
        return Err(e[1])
    if k == 'expr':
        return value(wb, e[1])

    def num(x):
        if isinstance(x, str):
            try:
                return float(x)
            except ValueError:
                return Err(15)
        return float(x)
    if k == 'un':
        a = value(wb, e[2])
        if a is UNKNOWN or isinstance(a, Err):
            return a
        a = num(a)
        if isinstance(a, Err):
            return a
        return {'+': a, '-': -a, '%': a / 100}[e[1]]
    if k == 'bin' and e[1] not in ' ,:':
        a, b = value(wb, e[2]), value(wb, e[3])
        for x in (a, b):
            if x is UNKNOWN or isinstance(x, Err):
                return x
        o = e[1]
        if o in '+-*/^':
            a, b = num(a), num(b)
            for x in (a, b):
                if isinstance(x, Err):
                    return x
            try:
                r = a + b if o == '+' else a - b if o == '-' else a * b if o == '*' else a / b if o == '/' else a ** b
            except ZeroDivisionError:
                return Err(7) if o == '/' else UNKNOWN
            except OverflowError:
                return Err(36)
            if isinstance(r, complex):
                return Err(36)
            return r if abs(r) < 1e300 else UNKNOWN
        if isinstance(a, bool) or isinstance(b, bool):
            return UNKNOWN
        if o == '&':
            def text(x):
                if isinstance(x, str):
                    return x
                return str(int(x)) if x == int(x) and abs(x) < 1e15 else repr(x) if 1e-4 < abs(x) < 1e9 else None
            a, b = text(a), text(b)
            return a + b if a is not None and b is not None else UNKNOWN
        if isinstance(a, str) and isinstance(b, str):
            for x in a + b:
                if not (x.isdigit() and x < '\x7f'):
                    return UNKNOWN if a != b else {'<': False, '<=': True, '=': True, '>=': True, '>': False, '<>': False}[o]
        x, y = ((1, a) if isinstance(a, str) else (0, a)), ((1, b) if isinstance(b, str) else (0, b))
        return {'<': x < y, '<=': x <= y, '=': x == y, '>=': x >= y, '>': x > y, '<>': x != y}[o]
    return UNKNOWN


def unevaluated(wb, f):
    """are there operands that constant arithmetic may leave alone: truth values and errors?"""
    if not isinstance(f, list) or not f or not isinstance(f[0], str):
        return False
    return isinstance(value(wb, f), (bool, Err)) or any(unevaluated(wb, g) for g in f)


def check_value(wb, f, kind, val):
    """kind and val: those of the operand; -> None or what is wrong.  A wrong value never is right."""
    e = value(wb, f)
    if e is UNKNOWN:
        return None
    if isinstance(e, Err):
        want = (4, e.code)
    elif isinstance(e, bool):
        want = (3, int(e))
    elif isinstance(e, str):
        want = (1, e)
    else:
        want = (2, e)
    if val is None and unevaluated(wb, f):
        return None
    if kind != want[0] or val != want[1] and not (kind == 2 and isinstance(val, (int, float)) and abs(val - want[1]) <= 1e-9 * abs(want[1])):
        return 'kind %r value %r for %r, expected %r' % (kind, val, f, want)
    return None
