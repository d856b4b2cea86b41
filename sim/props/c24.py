"""C24: the command-line script reports every file it was given, exactly, whatever the others are like."""
import gc
import io
import os
import re
import runpy
import struct
import sys

from .. import damage, gen as G, lib, ole, world
from ..lib import Out, h

ID = 'C24'
QUICK, THOROUGH = 5000, 10 ** 7
RULE = ('scripts/runxlrd.py runs in-process over one to four simulated files (sound workbooks of BIFF 2 to 8, damaged ones, other kinds of files, directories, names and glob '
        'patterns), with a seeded command and seeded options, short reads, and in some runs a failing system call; its output is split into sections, one per file, and each is compared with '
        'what the file holds. Non-trivial: more than one file, a fault, or damage. Distinct: by files, command, options and faults.')
MEASURE = 'distinct (command, options, outcome of each file, fault)'
TECHNIQUE = 'deterministic simulation with fault injection: seeded sets of files with failing, damaged and sound ones, output compared with a model built from each file alone'
NOTE = ('Seeded search. The expected lines come from opening each file alone through the library in another way of delivery (the library itself is checked by the other properties); '
        'of the header, fonts and dump output only the facts are compared, not the wording. A failure inside a command, after the open, is not injected.')

REAL_CODE = 'all of /repo/xlrd and /repo/scripts/runxlrd.py as in the working tree'

ERRORS = {0: '#NULL!', 7: '#DIV/0!', 15: '#VALUE!', 23: '#REF!', 29: '#NAME?', 36: '#NUM!', 42: '#N/A'}
KINDS = ['empty', 'text', 'zip', 'dir', 'oldsig', 'filepass', 'missing']


def gen(rng, tier, i):
    cmd = rng.choice(['show'] * 6 + ['2rows', '3rows', 'ov', 'hdr', 'bench', 'xfc', 'xfc', 'fonts', 'names', 'name_dump', 'labels', 'labels', 'biff_dump', 'biff_count', 'nonsense'])
    fmt = int(rng.random() < 0.4)
    files = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        r = rng.random()
        if r < 0.25:
            files.append({'kind': rng.choice(KINDS)})
            continue
        wb = G.gen_wb(rng, fmt=fmt or cmd in ('xfc', 'fonts'), maxcells=rng.choice([0, 3, 12, 40]), far=0.0, names=cmd in ('names', 'name_dump'), min_cells=0)
        f = {'wb': wb, 'plan': ole.gen_plan(rng, rng.choice([3000, 6000])) if rng.random() < 0.5 else None}
        if rng.random() < 0.15:
            f['raw'] = damage.gen(rng, 1)
        files.append(f)
    o = {'fmt': fmt}
    if rng.random() < 0.35:
        o['ragged'] = 1
    if rng.random() < 0.3:
        o['od'] = 1
    if rng.random() < 0.5:
        o['m'] = rng.choice([0, 1, -1, 2])
    if rng.random() < 0.5:
        o['t'] = 1
    if rng.random() < 0.2:
        o['g'] = rng.choice([1, 2])
    if rng.random() < 0.25:
        o['l'] = 1
        o['v'] = rng.choice([0, 1, 2])
    if rng.random() < 0.15:
        o['u'] = 1
    if rng.random() < 0.15 and cmd in ('show', '2rows', '3rows', 'ov', 'bench'):
        o['s'] = rng.choice(['0', '1', 'name', 'name', 'none'])
    for f in files:
        if f.get('raw') and (o.get('od') or cmd == 'labels'):
            del f['raw']
    nm = [s['name'] for f in files for s in (f.get('wb') or {}).get('sheets', ()) if s.get('type', 0) == 0]
    if o.get('s') == 'name' and (not nm or not nm[0] or nm[0][0] == '-' or '\0' in nm[0]):
        del o['s']
    case = {'cmd': cmd, 'files': files, 'opts': o, 'args': rng.choice(['names', 'names', 'names', 'glob', 'both']), 'last': 0}
    if rng.random() < 0.1 and cmd in ('show', '2rows', '3rows'):
        # as long as a sheet can be
        case['last'] = rng.choice([65535, 65534])
        o['ragged'] = 1
    if rng.random() < 0.25:
        case['err'] = [rng.choice(['any', 'open', 'read', 'mmap', 'any']), rng.choice([0, 1, 2, 3, 5, 8, 13]), rng.choice(['EIO', 'ENOMEM', 'EACCES', 'MemoryError', 'KeyboardInterrupt', 'ESTALE'])]
    if rng.random() < 0.3:
        case['chop'] = [rng.choice([3, 100, 512, 4096]) for _ in range(rng.randrange(1, 4))]
    return case


def content(f, last):
    k = f.get('kind')
    if k is None:
        wb = f['wb']
        if last and wb['v'] >= 80:
            last = 0 if not wb['sheets'] or wb['sheets'][0].get('type', 0) else last
            if last:
                sh = dict(wb['sheets'][0])
                sh['items'] = list(sh['items']) + [['num', r, 0, 0, struct.pack('<d', float(r)).hex()] for r in (last - 1, last)]
                wb = dict(wb, sheets=[sh] + wb['sheets'][1:])
        stream, _ = lib.biff.build(wb)
        data, _ = lib.image_of(f, stream)
        return damage.apply(data, f['raw']) if f.get('raw') else data
    if k == 'empty':
        return b''
    if k == 'text':
        return b'a,b,c\n1,2,3\n' * 50
    if k == 'zip':
        import zipfile
        b = io.BytesIO()
        with zipfile.ZipFile(b, 'w') as z:
            z.writestr('xl/workbook.xml', '<workbook/>')
        return b.getvalue()
    if k == 'oldsig':
        return ole.SIG + bytes(100)
    if k == 'filepass':
        return b'\x09\x08\x10\x00\x00\x06\x05\x00\xbb\x0d\xcc\x07\x41\0\0\0\x06\0\0\0' + b'\x2f\x00\x06\x00' + bytes(6) + b'\x0a\0\0\0'
    return None


class Odd(Exception):
    pass


def rows_shown(n, limit):
    """documented: the first rows and the last one"""
    if limit is None or n <= limit:
        return list(range(n))
    return list(range(limit - 1)) + [n - 1] if limit else []


def cell_lines(bk, sh, limit, fmt):
    from xlrd import XLDateError, colname, xldate_as_tuple
    out = []
    for r in rows_shown(sh.nrows, limit):
        for c in range(sh.row_len(r)):
            t, v = sh.cell_type(r, c), sh.cell_value(r, c)
            if t == 3:
                try:
                    v = xldate_as_tuple(v, bk.datemode)
                except XLDateError as e:
                    t, v = 5, '%s:%s' % (type(e).__name__, e)
                except (OverflowError, ValueError):
                    raise Odd()         # infinity or NaN as a date
            elif t == 5:
                v = ERRORS.get(v, '<Unknown error code 0x%02x>' % v)
            out.append('cell %s%d: type=%d, data: %r' % (colname(c), r + 1, t, v) + (', xfx: %s' % sh.cell_xf_index(r, c) if fmt else ''))
    return out


def expected(case, data):
    """-> ('failed', name of the exception) or ('ok', lines)"""
    o, cmd = case['opts'], case['cmd']
    fmt = bool(o['fmt'] or cmd == 'xfc')
    if not data:
        return 'failed', 'XLRDError'
    try:
        bk = lib.xlrd.open_workbook(file_contents=data, logfile=io.StringIO(), formatting_info=fmt, ragged_rows=bool(o.get('ragged')), on_demand=bool(o.get('od')))
    except Exception as e:
        lib.guard(e)
        if isinstance(e, MemoryError):
            raise lib.OutOfMemory()
        return 'failed', type(e).__name__
    lines = []
    limit = {'show': None, '2rows': 2, '3rows': 3, 'ov': 0, 'bench': 0}.get(cmd, -1)
    bad = None
    if limit != -1 or cmd == 'xfc':
        which = range(bk.nsheets)
        s = o.get('s')
        if s == 'none':
            return 'raises', 'XLRDError'
        if s is not None:
            if s == 'name':
                nm = target(case, bk.sheet_names())
                which = [bk.sheet_names().index(nm)] if nm in bk.sheet_names() else []
                bad = None if which else 'XLRDError'
                try:
                    which = [int(nm)]
                except ValueError:
                    pass
            else:
                which = [int(s)]
            if which and not 0 <= which[0] < bk.nsheets:
                bad = 'IndexError'
            if bad:
                return 'raises', bad
        for k in which:
            sh = bk.sheet_by_index(k)
            lines.append('sheet %d: name = %s; nrows = %d; ncols = %d' % (k, (repr if cmd == 'xfc' else ascii)(sh.name), sh.nrows, sh.ncols))
            if cmd == 'xfc':
                st = [0] * 7
                for r in range(sh.nrows):
                    for t in sh.row_types(r):
                        st[t] += 1
                lines.append('type stats %r' % st)
            else:
                lines += cell_lines(bk, sh, limit, fmt)
                if cmd == 'bench':
                    cell_lines(bk, sh, None, fmt)       # reads them, prints none
    elif cmd == 'names':
        if bk.biff_version < 50:
            lines.append('Names not extracted in this BIFF version')
        else:
            lines.append('Name list: %d entries' % len(bk.name_obj_list))
            for n in bk.name_obj_list:
                lines.append('[%d]\tName:%r macro:%r scope:%d' % (n.name_index, n.name, n.macro, n.scope))
                lines.append('\tresult:%r' % (n.result,))
    elif cmd == 'name_dump':
        if bk.biff_version >= 50:
            lines += ['=== Dump of name_obj_list[%d] ===' % n.name_index for n in bk.name_obj_list]
    elif cmd == 'fonts':
        lines += ['== Index %d ==' % k for k in range(len(bk.font_list))]
    elif cmd == 'labels':
        for k in range(bk.nsheets):
            sh = bk.sheet_by_index(k)
            if sh.col_label_ranges or sh.row_label_ranges:
                lines.append('sheet %d: name = %r; nrows = %d; ncols = %d' % (k, sh.name, sh.nrows, sh.ncols))
                for what, l in (('Col', sh.col_label_ranges), ('Row', sh.row_label_ranges)):
                    for a, b, c, d in l:
                        cn = lib.xlrd.cellname
                        lines.append('%s label range %s:%s contains:' % (what, cn(a, c), cn(b - 1, d - 1)))
                        for r in range(a, b):
                            for x in range(c, d):
                                lines.append('    %s: %r' % (cn(r, x), sh.cell_value(r, x) if r < sh.nrows and x < sh.row_len(r) else ''))
    if cmd != 'labels' or lines:
        facts = ['BIFF version: %s; datemode: %s' % (lib.xlrd.biff_text_from_num[bk.biff_version], bk.datemode),
                 'codepage: %r (encoding: %s); countries: %r' % (bk.codepage, bk.encoding, bk.countries), 'Last saved by: %r' % (bk.user_name,),
                 'Number of data sheets: %d' % bk.nsheets]
        lines = facts + lines
    return 'ok', lines


def target(case, names):
    """the sheet name the run is restricted to: that of some sheet of the first sound file"""
    return case.get('_target')


PAT = {'show': 'cell |sheet ', '2rows': 'cell |sheet ', '3rows': 'cell |sheet ', 'ov': 'cell |sheet ', 'bench': 'cell |sheet ', 'xfc': 'sheet |type stats ',
       'names': r'\[|\tresult:|Names not|Name list', 'name_dump': '=== Dump', 'fonts': '== Index', 'labels': 'sheet |Col label|Row label|    '}


def runx(argv):
    """-> (stdout, exception)"""
    script = os.path.join(os.path.abspath(lib.REPO), 'scripts', 'runxlrd.py')
    old, on = sys.argv, gc.isenabled()
    sys.argv = [script] + argv
    world.OUT.take(), world.ERR.take()
    err = None
    try:
        runpy.run_path(script, run_name='__main__')
    except (Exception, SystemExit, KeyboardInterrupt) as e:
        err = e
    finally:
        sys.argv = old
        if on:
            gc.enable()
    return world.OUT.take(), err


def run(case):
    out = Out()
    o, cmd = case['opts'], case['cmd']
    lib.req(case['files'] and (o.get('ragged') or not case.get('last')))
    datas = [content(f, case.get('last')) for f in case['files']]
    err = case.get('err')
    single = cmd in ('biff_dump', 'biff_count')
    case = dict(case)
    if o.get('s') == 'name':
        wbs = [f['wb'] for f in case['files'] if 'wb' in f]
        nm = [s['name'] for w_ in wbs for s in w_['sheets'] if s.get('type', 0) == 0]
        lib.req(nm and not nm[0].startswith('-') and nm[0] and '\0' not in nm[0])
        try:
            int(nm[0])
        except ValueError:
            pass
        else:
            lib.req(False)          # name or index?
        case['_target'] = nm[0]
    elif o.get('s') == 'none':
        case['_target'] = 'no such sheet, surely'
    elif o.get('s'):
        case['_target'] = o['s']
    plan = [{'op': err[0], 'n': err[1], 'err': err[2]}] if err else []
    with world.World(chop=case.get('chop')) as w:
        paths = []
        for k, (f, d) in enumerate(zip(case['files'], datas)):
            p = os.path.join(w.dir, 'f%d.xls' % k)
            if f.get('kind') == 'dir':
                os.mkdir(p)
            elif d is not None:
                w.put('f%d.xls' % k, d)
            paths.append(p)
        there = [p for p, f in zip(paths, case['files']) if f.get('kind') != 'missing']
        want = {}
        w.armed = False
        direct = None
        if single:
            if any(p not in there for p in paths[:1]):
                return out
            buf = io.StringIO()
            try:
                if cmd == 'biff_dump':
                    lib.xlrd.dump(paths[0], buf, bool(o.get('u')))
                else:
                    lib.xlrd.count_records(paths[0], buf)
                direct = ('ok', buf.getvalue())
            except Exception as e:
                lib.guard(e)
                direct = ('failed', type(e).__name__)
        else:
            for p, f, d in zip(paths, case['files'], datas):
                if f.get('raw') and (o.get('od') or cmd == 'labels'):
                    lib.req(False)
                if p in there:
                    try:
                        want[p] = expected(case, d) if d is not None else ('failed', 'IsADirectoryError')
                    except Odd:
                        out.probe('infinite date')
                        return out
        w.armed = True
        w.plan = plan
        argv = []
        log = os.path.join(w.dir, 'log.txt')
        for c, a in (('fmt', '-f'), ('m', '-m'), ('g', '-g'), ('v', '-v')):
            if c in o and (c != 'v' or o.get('l')):
                argv += [a, str(o[c])]
        for c, a in (('ragged', '-r'), ('od', '-d'), ('t', '-t'), ('u', '-u')):
            if o.get(c):
                argv.append(a)
        if o.get('l'):
            argv += ['-l', log]
        if o.get('s'):
            argv += ['-s', case['_target']]
        argv.append(cmd)
        how = case['args']
        if single or how == 'names':
            argv += paths[:1] if single else paths
            order = there
        elif how == 'glob':
            argv.append(os.path.join(w.dir, 'f*.xls'))
            order = None
        else:
            argv += paths[:1] + [os.path.join(w.dir, 'f[1-9].xls')]
            order = None
        txt, e = runx(argv)
        out.calls += 1
        fired = list(w.fired)
        real = [x for x in fired if not x.startswith('EINTR')]
        out.world(w)
        if single:
            if real:
                if e is None or type(e).__name__ != direct[0] and not isinstance(e, (OSError, MemoryError, KeyboardInterrupt)):
                    out.bad('fault', '%s went on after %s: %r' % (cmd, real, e))
            elif direct[0] == 'failed':
                if type(e).__name__ != direct[1]:
                    out.bad('single', '%s ended with %r, the library with %s' % (cmd, e, direct[1]))
            elif not isinstance(e, SystemExit) or e.code not in (0, None) or txt != direct[1]:
                out.bad('single', '%s ended with %r; %d characters of output, the library writes %d' % (cmd, e, len(txt), len(direct[1])))
            out.sig = h(case['files'], cmd, o, err) if real else None
            out.inter = h(cmd, o, direct[0], real)
            return out
        # ---- one section for each file
        parts = re.split(r'(?m)^=== File: (.*) ===$', txt)
        got = list(zip(parts[1::2], parts[2::2]))
        stop = None
        outcomes = []
        if o.get('l'):
            try:
                with world.REAL['open'](log) as f:
                    f.read()
            except OSError:
                out.bad('log', 'no log file')
        if order is not None and [p for p, _ in got] != order[:len(got)]:
            out.bad('files', 'sections for %s, given were %s' % ([os.path.basename(p) for p, _ in got], [os.path.basename(p) for p in order]))
        if len(set(p for p, _ in got)) != len(got) or not set(p for p, _ in got) <= set(there):
            out.bad('files', 'sections for %s' % [os.path.basename(p) for p, _ in got])
        left = len(real)
        fonts = []
        for k, (p, sec) in enumerate(got):
            if out.viol:
                break
            kind, x = want.get(p, ('failed', '?'))
            name = os.path.basename(p)
            m = re.search(r'(?m)^\*\*\* Open failed: (\w+): ', sec)
            outcomes.append(kind if not m else 'failed')
            if '*** KeyboardInterrupt ***' in sec:
                if not left or err[2] != 'KeyboardInterrupt' or not isinstance(e, SystemExit) or k != len(got) - 1:
                    out.bad('interrupt', '%s: reported an interrupt, ended with %r' % (name, e))
                stop = 'interrupt'
                break
            if m and (kind != 'failed' or m.group(1) != x):
                if left:
                    left -= 1
                    if m.group(1) not in (type(world.make_error(err[2])).__name__, 'MemoryError', 'BadZipFile'):
                        out.bad('failed', '%s failed with %s where %s was injected' % (name, m.group(1), err[2]))
                    continue
                out.bad('failed', '%s: Open failed: %s, alone it %s %s' % (name, m.group(1), kind, x if kind == 'failed' else ''))
                break
            if kind == 'failed':
                if not m:
                    out.bad('not-failed', '%s: no failure reported, alone the open raises %s' % (name, x))
                continue
            if cmd == 'nonsense':
                if '*** Unknown command <nonsense>' not in sec or not isinstance(e, SystemExit) or not e.code:
                    out.bad('unknown', 'an unknown command ended with %r' % (e,))
                stop = 'unknown'
                break
            if kind == 'raises':
                if type(e).__name__ != x or k != len(got) - 1:
                    out.bad('onesheet', '%s: ended with %r, expected was %s' % (name, e, x))
                stop = 'raises'
                break
            ls = sec.split('\n')
            for a in x[:4]:
                if a.startswith(('BIFF', 'codepage', 'Last saved', 'Number of')) and a not in ls:
                    out.bad('header', '%s: no line %r' % (name, a))
            exp = [a for a in x[4:]]
            if cmd == 'fonts':
                fonts += exp
            elif cmd not in ('hdr', 'nonsense'):
                g = [a for a in ls if re.match(PAT[cmd], a)]
                if g != exp:
                    i = next((i for i, (a, b) in enumerate(zip(exp, g)) if a != b), min(len(exp), len(g)))
                    out.bad('lines', '%s: %d lines, expected %d; line %d is %r, expected %r' % (
                        name, len(g), len(exp), i, (g[i:] or [None])[0], (exp[i:] or [None])[0]))
            if not o.get('t'):
                for a in re.findall(r'(?:took|time:) (\S+) seconds', sec):
                    if float(a) < 0:
                        out.bad('time', '%s: %s seconds' % (name, a))
        if not out.viol:
            if stop is None and e is not None:
                if not (real and type(e).__name__ == type(world.make_error(err[2])).__name__):
                    out.bad('ended', 'the script ended with %s%s' % (lib.show(e), ' at ' + lib.where(e) if e.__traceback__ else ''))
            elif stop is None and len(got) != len(there):
                out.bad('files', 'sections for %s, given were %s' % ([os.path.basename(p) for p, _ in got], [os.path.basename(p) for p in there]))
        shown = [a for a in world.ERR.take().split('\n') if re.match(PAT['fonts'], a)]
        if not out.viol and shown != fonts:
            out.bad('fonts', '%d fonts shown (on the error stream), expected %d' % (len(shown), len(fonts)))
        if e is not None:
            lib.drop(e)
    for f in case['files']:
        if f.get('kind'):
            out.fault('file of another kind: ' + f['kind'])
        if f.get('raw'):
            out.fault('damaged file')
    if len(there) > 1 or fired or any(f.get('raw') for f in case['files']):
        out.sig = h([f for f in case['files']], cmd, o, err, how)
    out.inter = h(cmd, o, outcomes, fired)
    return out
