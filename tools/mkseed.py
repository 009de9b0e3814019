"""Development tool: make and try planted changes (never used by checks).

  mkseed.py make FILE.py     FILE defines SEEDS = [dict(id, property, edits,
                             needs, breaks, demo)]
  mkseed.py try ID...        run the check of the property (and others named
                             with --checks C01,C02) against the change
Everything happens in scratch copies of /repo.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/sh
# run with cwd /repo
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def copy():
    d = tempfile.mkdtemp(prefix='hks-')
    r = os.path.join(d, 'repo')
    subprocess.check_call('mkdir %s && git -C /repo archive HEAD | tar x -C %s'
                          % (r, r), shell=True)
    subprocess.check_call('git init -q . && git add -A && git -c user.name=x '
                          '-c user.email=x commit -qm x', shell=True, cwd=r)
    return d, r


def env(r):
    e = dict(os.environ)
    e.update(PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    return e


def tests(r):
    p = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                        '--ignore=docs/test_asyncio.py', 'tests', 'docs'],
                       cwd=r, env=env(r), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    return p.returncode == 0, p.stdout.decode()[-300:]


def demo(sd, r):
    p = subprocess.run(['sh', os.path.join(sd, 'demo.sh')], cwd=r,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=280)
    return p.returncode, p.stdout.decode()[-400:]


def make(s):
    d, r = copy()
    sd = os.path.join(V, 'seeded', s['id'])
    try:
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                return s['id'], 'edit of %s matches %d times' % (f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=r).decode()
        os.makedirs(sd, exist_ok=True)
        open(os.path.join(sd, 'patch.diff'), 'w').write(diff)
        open(os.path.join(sd, 'demo.sh'), 'w').write(DEMO)
        open(os.path.join(sd, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(os.path.join(sd, 'meta.json'), 'w'), indent=1)
        ok, out = tests(r)
        bad, dout = demo(sd, r)
        subprocess.check_call(['git', 'checkout', '-q', '.'], cwd=r)
        good, gout = demo(sd, r)
        if ok and bad != 0 and good == 0:
            return s['id'], 'ok (%s)' % dout.strip().splitlines()[-1][:120]
        shutil.rmtree(sd)
        return s['id'], 'REJECTED tests=%s demo patched=%s clean=%s\n%s\n%s\n%s' % (
            ok, bad, good, out if not ok else '', dout if not bad else '',
            gout if good else '')
    finally:
        shutil.rmtree(d)


def attempt(sid, checks):
    d, r = copy()
    sd = os.path.join(V, 'seeded', sid)
    try:
        subprocess.check_call(['git', 'apply', os.path.join(sd, 'patch.diff')],
                              cwd=r)
        prop = json.load(open(os.path.join(sd, 'meta.json')))['property']
        res = []
        for c in checks or [prop]:
            e = env(r)
            e.update(HIKU_REPO=r, HKV_EVIDENCE=os.path.join(d, 'ev'),
                     VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
            e.pop('PYTHONPATH')
            p = subprocess.run([sys.executable, os.path.join(V, 'check.py'), c],
                               cwd=V, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=900)
            out = p.stdout.decode()
            n = len(re.findall('VIOLATION property=' + c, out))
            why = [x for x in out.splitlines() if x.startswith('  ')]
            res.append('%s %s rc=%d n=%d %s' % (
                c, 'CAUGHT' if p.returncode == 1 and n else 'MISSED',
                p.returncode, n, (why or [out[-300:]])[0][:260]
                if p.returncode else ''))
        return sid, '; '.join(res)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        ns = {}
        exec(open(args[0]).read(), ns)
        with ThreadPoolExecutor(4) as ex:
            for sid, res in ex.map(make, [
                    s for s in ns['SEEDS']
                    if len(args) < 2 or s['id'] in args[1:]]):
                print(sid, res, flush=True)
    else:
        checks = []
        if args and args[0] == '--checks':
            checks = args[1].split(',')
            args = args[2:]
        with ThreadPoolExecutor(2) as ex:
            for sid, res in ex.map(lambda i: attempt(i, checks),
                                   args or sorted(os.listdir(
                                       os.path.join(V, 'seeded')))):
                print(sid, res, flush=True)
