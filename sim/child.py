"""A process in a chosen environment that opens workbooks for C19: forks for each job, so that each job starts from
the same state.  Jobs and answers are lines of JSON."""
import base64
import gc
import json
import os
import sys


def job(spec, j):
    from sim import lib, monitor, observe, world
    keep = []

    def one(d, last):
        with_log = d.get('log')
        data = base64.b64decode(d['data'])
        log = lib.Log() if with_log else None
        bk = lib.open_book(w, data, d['opts'], d['way'], name=d.get('name', 'b.xls'), log=log)
        if last:
            return bk
        if d.get('load'):
            for k in range(bk.nsheets):
                s = bk.sheet_by_index(k)
                keep.append(s.row_values(0) if s.nrows else None)
        if d.get('keep'):
            keep.append(bk)
        elif d.get('close'):
            bk.release_resources()

    with world.World() as w:
        w.wall, w.now = spec.get('wall', 1.6e9), spec.get('now', 1000.0)
        for d in j['prior']:
            n = d.get('cut')
            m = monitor.Lines(n, KeyboardInterrupt('injected')) if n else monitor.Budget(30000000)
            try:
                with m:
                    one(d, False)
            except (Exception, KeyboardInterrupt, monitor.BudgetExceeded) as e:
                keep.append(type(e).__name__)
        with open('/proc/self/statm') as f:
            if int(f.read().split()[0]) * 4096 > 2 << 30 or 'MemoryError' in keep:
                return {'skip': 1}        # the memory limit of the harness is near: nothing can be said
        out = {}

        def target():
            try:
                bk = one(j['target'], True)
                snap = observe.snapshot(bk, bool(j['target']['opts'].get('fmt')))
                out['digest'] = lib.digest(snap)
                if j.get('full'):
                    out['snap'] = snap
                bk.release_resources()
            except Exception as e:
                lib.guard(e)
                out['exc'] = '%s at %s' % (lib.show(e), lib.where(e))
        if spec.get('thread'):
            import threading
            t = threading.Thread(target=target)
            t.start()
            t.join()
        else:
            target()
        return out


def main():
    proto = os.fdopen(os.dup(1), 'w', encoding='utf-8')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    spec = json.loads(sys.argv[1])
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    if spec.get('locale'):
        import locale
        try:
            locale.setlocale(locale.LC_ALL, '')
        except locale.Error:
            pass
    junk = [bytearray((i * 7919) % 5000) for i in range(spec.get('junk', 0))]
    del junk[::3]
    from sim import lib
    lib.load_xlrd()
    if spec.get('cwd'):
        os.chdir(spec['cwd'])
    if spec.get('gc') == 'off':
        gc.disable()
    elif spec.get('gc'):
        gc.set_threshold(*spec['gc'])
    proto.write('READY\n')
    proto.flush()
    for line in iter(sys.stdin.readline, ''):
        j = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                d = job(spec, j)
            except BaseException:
                import traceback
                d = {'error': traceback.format_exc()[-1500:]}
            with os.fdopen(w, 'w', encoding='utf-8') as g:
                g.write(json.dumps(d))
            os._exit(0)
        os.close(w)
        with os.fdopen(r, encoding='utf-8') as g:
            s = g.read()
        os.waitpid(pid, 0)
        d = json.loads(s) if s else {'died': 1}
        d['id'] = j['id']
        proto.write(json.dumps(d) + '\n')
        proto.flush()


if __name__ == '__main__':
    main()
