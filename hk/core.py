"""Running a check: budget, worker processes, verdicts, evidence."""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('HKV_EVIDENCE') or os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known-findings.txt')


class Hang(BaseException):
    pass


class Check:
    """Collects what a check did"""

    level = 'model_checking'

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.samples = []
        self.failures = []      # (key, text, recipe)
        self.known = []
        self.assumptions = []
        self.findings = load_known(prop)

    # -- bookkeeping ------------------------------------------------------
    def log(self, *args):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *args,
              flush=True)

    def n(self, quick, thorough):
        x = thorough if self.thorough else quick
        scale = os.environ.get('HKV_SCALE')      # for tools/mutate.py
        return max(10, int(x * float(scale))) if scale and \
            isinstance(x, int) and x > 20 else x

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def tlc(self, res):
        self.states += res.distinct
        self.transitions += res.states

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def fail(self, text, recipe, key=None):
        """a violation; key identifies the failing input for known findings"""
        key = key or short(recipe)
        for f in self.findings:
            if f['key'] == key:
                if key not in self.known:
                    self.known.append(key)
                    print('KNOWN-FINDING: property=%s %s' % (self.prop,
                                                             f['text']))
                return
        self.failures.append((key, text, recipe))

    # -- the end ----------------------------------------------------------
    def finish(self):
        rdir = os.path.join(EVIDENCE, 'replay')
        os.makedirs(rdir, exist_ok=True)
        for old in os.listdir(rdir):
            if old.startswith(self.prop + '-'):
                os.unlink(os.path.join(rdir, old))
        paths = []
        for i, (key, text, recipe) in enumerate(self.failures[:10]):
            p = os.path.join(rdir, '%s-%d.json' % (self.prop, i + 1))
            with open(p, 'w') as f:
                json.dump({'property': self.prop, 'tier': self.tier,
                           'seed': self.seed, 'key': key, 'what': text,
                           'recipe': recipe}, f, indent=1, default=repr)
            paths.append((p, text))
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'samples': self.samples or ['-']}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.failures)}
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        self.log('states %d, transitions %d, executions validated %d, %s'
                 % (self.states, self.transitions, self.traces, self.extra))
        for p, text in paths:
            print('  ' + text[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        if len(self.failures) > len(paths):
            print('  ... and %d more' % (len(self.failures) - len(paths)))
        return 1 if self.failures else 0


def short(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=repr)
                        .encode()).hexdigest()[:12]


def load_known(prop):
    """lines:  known: property=<id> key=<key> <text>   (see the file)"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith('known: property=%s ' % prop):
                _, _, key, text = line.strip().split(' ', 3)
                out.append({'key': key.split('=', 1)[1], 'text': text})
    return out


# -- worker processes -----------------------------------------------------

def _alarm(sig, frame):
    raise Hang()


def _guard(args):
    fn, arg, limit = args
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return 'ok', fn(arg)
    except Hang:
        return 'hang', 'no end after %d s' % limit
    except Exception:
        return 'error', traceback.format_exc(limit=-6)
    finally:
        signal.alarm(0)


def parallel(check, fn, args, limit=30, procs=None):
    """fn(arg) for all args in worker processes.  Executions which do not
    end or which crash in the code under test are violations."""
    args = list(args)
    ctx = multiprocessing.get_context('fork')
    procs = procs or min(8, os.cpu_count() or 1)
    out = []
    with ctx.Pool(procs) as pool:
        chunk = max(1, min(50, len(args) // (procs * 4) or 1))
        for arg, (st, val) in zip(args, pool.imap(
                _guard, [(fn, a, limit) for a in args], chunk)):
            if st == 'ok':
                out.append((arg, val))
            else:
                what = ('does not terminate: ' if st == 'hang'
                        else 'unexpected error: ') + val
                check.fail(what, {'fn': fn.__module__ + ':' + fn.__name__,
                                  'arg': arg})
    return out


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.setup:
        return setup()
    recipe = None
    if a.replay:
        d = json.load(open(a.replay))
        a.prop, a.tier, seed = d['property'], d['tier'], d['seed']
        recipe = d['recipe']
        print(d['what'])
    mod = importlib.import_module('hk.checks.' + a.prop.lower())
    check = Check(a.prop, a.tier, seed)
    if recipe is not None:
        check.log('replaying', str(recipe)[:300])
    try:
        mod.run(check, recipe)
    except Exception as e:
        text = traceback.format_exc(limit=-8)
        print(text)
        import hiku
        home = os.path.dirname(os.path.abspath(hiku.__file__)) + os.sep
        if any(f.filename.startswith(home)
               for f in traceback.extract_tb(e.__traceback__)):
            check.fail('unexpected error: ' + text, {'arg': 'run'})
        if not check.failures:
            return 2
    return check.finish()


def setup():
    """nothing to build: the tools are there, the specifications parse"""
    import subprocess
    from . import tlc
    os.makedirs(EVIDENCE, exist_ok=True)
    import hiku
    print('hiku from', os.path.dirname(hiku.__file__))
    tmp = tlc.scratch()
    try:
        for f in sorted(os.listdir(tlc.SPEC)):
            if f.endswith('.tla'):
                p = subprocess.run(
                    ['java', '-Djava.io.tmpdir=' + tmp,
                     '-DTLA-Library=' + tlc.SPEC, '-cp', tlc.JARS,
                     'tla2sany.SANY', os.path.join(tlc.SPEC, f)],
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp)
                ok = p.returncode == 0
                print(f, 'ok' if ok else p.stdout.decode()[-2000:])
                if not ok:
                    return 2
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return 0
