"""C17: files xlrd does not support are identified and refused as such."""
import os
import pathlib
import struct

from .. import biff, gen as G, lib, observe, ole, world, zips
from ..lib import Out, h

ID = 'C17'
QUICK, THOROUGH = 12000, 10 ** 7
RULE = ('A history of files of seeded kinds (zip containers of every flavour and member order, workbooks in and out of containers, encrypted workbooks, workspaces, compound '
        'files without a workbook, other data, empty files) appears under one path; each is inspected and opened through the path (plain, relative, with "~", as a path object) '
        'and as content, and the verdicts compared with the kind it was made as; nothing may stay open. Non-trivial: at least one file that is to be refused, or a path '
        'form other than plain. Distinct: by contents, forms and options.')
MEASURE = 'distinct (kind, form, way) triples with the verdict given'
TECHNIQUE = 'deterministic simulation: seeded histories of files of known kind behind a simulated file system and home directory, verdicts against a model'
NOTE = 'Seeded search over contents and path forms. Zip files are intact ones; a zip archive with its directory cut off is an error of the zip module for path and content alike.'
WORD = {'xlsx': 'xlsx', 'xlsb': 'xlsb', 'ods': 'ods', 'zip': 'zip'}


def member(rng, name):
    if rng.random() < 0.35:
        name = name.replace('/', '\\')
    if rng.random() < 0.35:
        name = rng.choice([name.upper(), name.title(), ''.join(rng.choice([c.lower(), c.upper()]) for c in name)])
    return name


def gen_zip(rng):
    kind = rng.choice(['xlsx', 'xlsb', 'ods', 'zip'])
    others = ['[Content_Types].xml', '_rels/.rels', 'xl/worksheets/sheet1.xml', 'docProps/app.xml', 'mimetype', 'META-INF/manifest.xml', 'word/document.xml',
              'xl/workbook.xml.bak', 'content.xml.old', 'sub/content.xml', 'a/xl/workbook.xml', 'xl/workbook2.bin', 'xl_workbook.xml', 'styles.xml', 'x.xls']
    big = rng.random() < 0.03
    ms = [[n, rng.randbytes(rng.choice([20000, 70000]) if big else rng.choice([0, 3, 50])).hex(), rng.randrange(2)] for n in rng.sample(others, rng.randrange(0 if kind != 'zip' else 1, 8))]
    mark = {'xlsx': 'xl/workbook.xml', 'xlsb': 'xl/workbook.bin', 'ods': 'content.xml'}.get(kind)
    if mark:
        ms.insert(rng.randrange(len(ms) + 1), [member(rng, mark), '3c', rng.randrange(2)])
    d = {'kind': kind, 'zip': {'members': ms}}
    if rng.random() < 0.2:
        d['zip']['comment'] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 20, 200]))).hex()
    return d


def gen_file(rng):
    m = rng.choice(['zip', 'zip', 'zip', 'xls', 'xls', 'bare', 'crypt', 'crypt', 'workspace', 'bofkind', 'nobook', 'nobook', 'nested', 'other', 'other', 'badbof', 'empty'])
    if m == 'zip':
        return gen_zip(rng)
    if m == 'empty':
        return {'kind': 'empty'}
    if m == 'badbof':
        # begins like a worksheet or workbook, and is none
        op, fill = rng.choice([0x0009, 0x0209, 0x0409, 0x0809]), bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 6, 20, 300])))
        w = rng.choice(['len', 'len', 'cut', 'kind'])
        if w == 'len':
            b = struct.pack('<HH', op, rng.choice([0, 1, 3, 21, 22, 255, 256, 0x6020, 0xFFFF])) + struct.pack('<HH', rng.choice([0x600, 0x500, 0]), rng.choice([5, 0x10])) + fill
        elif w == 'cut':
            b = struct.pack('<HHHHHHII', op, rng.choice([4, 8, 16]), 0x600, 5, 0, 0, 0, 0)
            b = b[:rng.randrange(2, 4 + b[2])]
        else:
            b = struct.pack('<HHHHHHII', op, rng.choice([4, 6, 8, 16]), rng.choice([0x600, 0x500, 0x100, 0x700]), rng.choice([7, 0x99, 0xFFFF, 0x2020]), 0, 0, 0, 0) + fill
        return {'kind': m, 'hex': b.hex()}
    if m == 'other':
        t = rng.choice([b'a,b,c\n1,2,3\n', b'<html><table><tr><td>1</td></tr></table></html>', b'\x89PNG\r\n\x1a\n' + bytes(40), b'%PDF-1.4\n', b'\xef\xbb\xbfx', b'{}', b'\x00', b'\t',
                        b'P', b'PK', b'PK\x03', b'PK\x05\x06' + bytes(18), b'\xd0\xcf\x11\xe0', b'\xd0\xcf\x11\xe0\xa1\xb1\x1a', b'MZ' + bytes(100), b'<?xml version="1.0"?>',
                        b'\x1f\x8b\x08', bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 3, 4, 8, 30, 600]))), b'\n' * 600, b'ID;PWXL\n', b'\xff\xfea\x00'])
        return {'kind': 'other', 'hex': t.hex()}
    v = {'bare': None, 'xls': rng.choice([80, 80, 70, 50]), 'bofkind': rng.choice([80, 70, 50, 40, 30, 21, 20]), 'workspace': rng.choice([80, 70, 50])}.get(m, rng.choice([80, 80, 70, 50, 45, 40, 30, 21, 20]))
    d = {'kind': m, 'wb': G.gen_wb(rng, v=v, fmt=False, maxcells=4, nsheets=rng.choice([1, 2]))}
    if m in ('xls', 'nobook', 'nested') or (m != 'bare' and rng.random() < 0.6):
        d['plan'] = ole.gen_plan(rng, 3000, simple=0.1)
    if m == 'nobook':
        d['plan']['name'] = rng.choice(['WordDocument', 'Workbook1', 'Workboo', 'Contents', 'PowerPoint Document', 'Books', 'Boo', '\x05Workbook', 'ΩBook'])
        d['plan'].pop('both', None)
    if m == 'nested':
        d['plan']['main_in'] = rng.choice(['ObjectPool', 'Workbook', 'Book', 'WORKBOOK'])
        d['plan'].pop('both', None)
        d['plan'].pop('extra', None)
    if m == 'bofkind':
        d['bof'] = rng.choice([0x20, 0x40, 0x06, 0x01])
    if m == 'crypt':
        d['key'] = bytes(rng.randrange(256) for _ in range(rng.choice([4, 6, 54]))).hex()
        if rng.random() < 0.3:
            d['key'] = rng.choice(['00' * 4, '00' * 6, '0000' + 'ff' * 4, '0100' + '00' * 52, 'ff' * 6, '0000', ''])
        d['pos'] = rng.choice([0, 0, 1])
    return d


def gen(rng, tier, i):
    files = [gen_file(rng) for _ in range(rng.choice([1, 2, 3, 5]))]
    ops = []
    for j in range(len(files)):
        for _ in range(rng.choice([1, 2])):
            o = lib.gen_opts(rng, fmt=0)
            if rng.random() < 0.15:
                o['verbosity'] = 1
            if rng.random() < 0.1:
                o['ignore'] = 1
            ops.append([j, rng.choice(['plain', 'plain', 'tilde', 'tilde', 'rel', 'rel', 'pathlib', 'dot', 'content']), rng.choice(['mmap', 'read']),
                        rng.choice(['bytes', 'mmapobj', 'buf', 'bytearray']), o])
    return {'files': files, 'ops': ops, 'name': rng.choice(['book.xls', 'book.xlsx', 'Book', 'b c.xls', 'naïve.xls', '~x.xls', '$HOME.xls', 'a~b.zip'])}


def content(d):
    """-> bytes, expected inspect_format, expected exception or expected workbook"""
    k = d['kind']
    if 'zip' in d:
        b = zips.build(d['zip'])
        lib.req(b[:4] == b'PK\x03\x04')
        low = set(m[0].replace('\\', '/').lower() for m in d['zip']['members'])
        real = 'xlsx' if 'xl/workbook.xml' in low else 'xlsb' if 'xl/workbook.bin' in low else 'ods' if 'content.xml' in low else 'zip'
        lib.req(real == k)
        return b, k, k, None
    if k == 'empty':
        return b'', None, 'empty', None
    if k == 'badbof':
        b = bytes.fromhex(d['hex'])
        lib.req(len(b) >= 2 and b[0] == 9 and b[1] in (0, 2, 4, 8))
        if len(b) >= 4:
            n, = struct.unpack('<H', b[2:4])
            lib.req(not 4 <= n <= 20 or len(b) < 4 + n or b[6:8] in (b'\7\0', b'\x99\0', b'\xff\xff', b'\x20\x20'))
        return b, None, k, None
    if k == 'other':
        b = bytes.fromhex(d['hex'])
        lib.req(b and b[:8] != ole.SIG and b[:4] != b'PK\x03\x04' and not (b[0] == 9 and len(b) > 1 and b[1] in (0, 2, 4, 8)))
        return b, None, k, None
    stream, info = biff.build(d['wb'])
    n = 4 + struct.unpack('<H', stream[2:4])[0]
    if k == 'crypt':
        at = n
        if d['pos'] and d['wb']['v'] >= 50:
            stream = stream[:at] + struct.pack('<HH', 0x86, 0) + stream[at:]     # WRITEPROT comes first
            at += 4
        key = bytes.fromhex(d['key'])
        stream = stream[:at] + struct.pack('<HH', 0x2F, len(key)) + key + stream[at:]
    elif k == 'workspace':
        lib.req(d['wb']['v'] >= 50)
        stream = stream[:6] + struct.pack('<H', 0x100) + stream[8:]
    elif k == 'bofkind':
        lib.req(d['wb']['v'] != 45)
        stream = stream[:6] + struct.pack('<H', d['bof']) + stream[8:]
    if d.get('plan') is not None:
        p = d['plan']
        if k == 'nobook':
            lib.req(p.get('name', 'Workbook').lower() not in ('workbook', 'book') and not p.get('both'))
        if k == 'nested':
            lib.req(p.get('main_in'))
        elif k != 'nobook':
            lib.req(not p.get('main_in') and p.get('name', 'Workbook').lower() in ('workbook', 'book'))
        b = ole.build(stream, p).data
        fmt = 'xls'
    else:
        lib.req(k not in ('nobook', 'nested', 'xls'))
        b, fmt = stream, None
    return b, fmt, k, (biff.expect(d['wb'], False, False), biff.expect(d['wb'], False, True)) if k in ('xls', 'bare') else None


def run(case):
    out = Out()
    x = lib.xlrd
    inter = set()
    hard = 0
    name = case['name']
    lib.req(name and '/' not in name and name not in ('.', '..'))
    old, home = os.getcwd(), os.environ.get('HOME')
    made = [content(d) for d in case['files']]
    with world.World() as w:
        try:
            os.chdir(w.dir)
            os.environ['HOME'] = w.dir
            path = w.put('other.bin', b'x')
            for j, form, way, cway, o in case['ops']:
                b, fmt, k, exp = made[j % len(made)]
                path = w.put(name, b)
                arg = {'plain': path, 'tilde': '~/' + name, 'rel': './' + name if name[0] == '~' else name, 'pathlib': pathlib.Path(path), 'dot': './../' + os.path.basename(w.dir) + '/' + name,
                       'content': None}[form]
                ctx = '%s file%s, %s' % (k, ' in a container' if fmt == 'xls' else '', form)
                hard += exp is None or form in ('tilde', 'rel', 'pathlib', 'dot')
                out.calls += 2
                if arg is None and not b:
                    continue
                # inspection
                try:
                    if arg is not None:
                        got = x.inspect_format(arg)
                    else:
                        got = x.inspect_format(content=make(cway, b, path))
                    if got != fmt:
                        out.bad('inspect', '%s: inspect_format gave %r, expected %r' % (ctx, got, fmt))
                    if got not in x.FILE_FORMAT_DESCRIPTIONS:
                        out.bad('inspect', '%s: %r has no description' % (ctx, got))
                except Exception as e:
                    lib.guard(e)
                    out.bad('inspect', '%s: inspect_format raised %s at %s' % (ctx, lib.show(e), lib.where(e)))
                # opening
                bk = err = None
                try:
                    if arg is not None:
                        bk = lib.open_book(w, b, o, way, path=arg)
                    else:
                        bk = lib.open_book(w, b, o, cway, path=path)
                    res = 'Book'
                except Exception as e:
                    err = e
                    res = type(e).__name__
                    hd = arg is not None and w.held()          # a map handed in is the caller's
                    if hd:
                        out.bad('held', '%s: refused with %s, still held: %s' % (ctx, lib.show(e), ', '.join(hd)))
                inter.add('%s %s %s %s' % (k, form, way if arg is not None else cway, res))
                out.probe(k)
                if exp is not None:
                    if err is not None:
                        if not isinstance(err, OSError):
                            lib.guard(err)
                        out.bad('refused', '%s: open_workbook raised %s at %s' % (ctx, lib.show(err), lib.where(err)))
                    else:
                        out.diffs('wrong-result', observe.against(exp[bool(o.get('ragged'))], observe.snapshot(bk, False)), ctx)
                        bk.release_resources()
                elif err is None:
                    out.bad('accepted', '%s: open_workbook returned a Book' % ctx)
                    bk.release_resources()
                elif not isinstance(err, x.XLRDError):
                    if not isinstance(err, OSError):
                        lib.guard(err)
                    out.bad('not XLRDError', '%s: open_workbook raised %s at %s' % (ctx, lib.show(err), lib.where(err)))
                elif k in WORD and WORD[k] not in str(err).lower():
                    out.bad('message', '%s: the refusal does not name the kind: %s' % (ctx, err))
                err = bk = None
                lib.no_output(out, ctx) if exp is not None else (world.OUT.take(), world.ERR.take())
                hd = w.held()
                if hd:
                    out.bad('held', '%s: still held: %s' % (ctx, ', '.join(hd)))
                if out.viol:
                    break
        finally:
            os.chdir(old)
            if home is None:
                os.environ.pop('HOME', None)
            else:
                os.environ['HOME'] = home
        out.world(w)
    if hard:
        out.sig = h(case)
        out.inter = sorted(inter)
    return out


def make(way, b, path):
    if way == 'bytes':
        return b
    if way == 'bytearray':
        return bytearray(b)
    if way == 'buf':
        return lib.Buf(b)
    return lib.make_map(path)
