#!/opt/venv/bin/python -B
"""plant.py SPEC.py [ID...]: plants each change of SPEC.MUTANTS (id, property, [(file, old, new)...]) in a scratch copy
of /repo, runs the stable tests and the property's check there; prints one line each.  With --keep writes
/verif/seeded/<id>/patch.diff for those that pass the tests and whose demo (already in the folder) tells them apart."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import time

REPO = '/repo'
BASE = '1b4fe79'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as x:
        return -99, (x.stdout or b'').decode('utf-8', 'replace')


def demo(mid, copy, patched):
    d = os.path.join('/verif/seeded', mid)
    tmp = os.path.join('/tmp/pl', 'demo_' + mid)
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    rc, out = sh(['bash', os.path.join(tmp, 'demo.sh')], copy, timeout=300)
    shutil.rmtree(tmp)
    return rc, out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    keep = '--keep' in sys.argv
    nocheck = '--nocheck' in sys.argv
    spec = importlib.util.spec_from_file_location('spec', args[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = args[1:]
    for mid, prop, edits in m.MUTANTS:
        if only and mid not in only:
            continue
        copy = os.path.join('/tmp/pl', mid)
        shutil.rmtree(copy, ignore_errors=True)
        subprocess.check_call(['git', 'clone', '-q', '--no-hardlinks', REPO, copy])
        try:
            msg = []
            for f, old, new in edits:
                p = os.path.join(copy, f)
                s = open(p, encoding='utf-8').read()
                if s.count(old) != 1:
                    msg.append('%s: %d matches of %r' % (f, s.count(old), old[:60]))
                    continue
                open(p, 'w', encoding='utf-8').write(s.replace(old, new))
            if msg:
                print('%-28s BADEDIT %s' % (mid, msg), flush=True)
                continue
            diff = sh(['git', 'diff'], copy)[1]
            removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
            base = sh(['git', 'grep', '-h', '', BASE, '--', 'xlrd', 'scripts'], copy)[1].splitlines()
            base = set(base)
            foreign = [l for l in removed if l.strip() and l not in base]
            rc, out = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], copy, env={'PYTHONPATH': copy}, timeout=120)
            tests = 'tests-ok' if rc == 0 and '84 passed' in out else 'TESTS-FAIL(%s)' % out.strip().splitlines()[-1][:60]
            res = ''
            if os.path.exists('/verif/seeded/%s/demo.sh' % mid):
                a, oa = demo(mid, REPO, 0)
                b, ob = demo(mid, copy, 1)
                res = 'demo %s/%s' % (a, b) + ('' if a == 0 and b not in (0, -99) else ' DEMO-BAD ' + (oa if a else ob)[-300:])
                if keep and tests == 'tests-ok' and a == 0 and b not in (0, -99):
                    open('/verif/seeded/%s/patch.diff' % mid, 'w').write(diff)
            chk = ''
            if not nocheck and tests == 'tests-ok':
                t = time.time()
                rc, out = sh(['/verif/check', prop], '/verif', env={'XLRDSIM_REPO': copy, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
                chk = {1: 'CAUGHT', 0: 'MISSED'}.get(rc, 'RC%s' % rc) + ' %.0fs' % (time.time() - t)
                if rc == 1:
                    l = [x for x in out.splitlines() if x.startswith('VIOLATION')]
                    chk += ' ' + (l[0] if l else '?')[-40:]
            print('%-28s %s %s %s %s %s' % (mid, prop, tests, 'FOREIGN-LINES' if foreign else '', res, chk), flush=True)
        finally:
            shutil.rmtree(copy, ignore_errors=True)


main()
