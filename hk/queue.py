"""Programs for the work queue, run on the real Queue."""
import random

from hiku.executors.queue import Queue


class Fut:
    def __init__(self, name):
        self.name = name

    def result(self):
        return self.name


class Ex:
    def submit(self, fn, *args, **kwargs):
        return fn(*args, **kwargs)


def program(seed, budget=12):
    r = random.Random(seed)
    n = {'t': 0, 'f': 0, 'c': 0}
    left = [budget]
    body = {}

    def new(k):
        n[k] += 1
        return '%s%d' % (k, n[k])

    def ops(up, depth, minfut=False):
        """up: task sets that are alive here, innermost first"""
        out = []
        alive = list(up)
        chain = {t: up[i:] for i, t in enumerate(up)}
        for k in range(r.randint(1, 4)):
            if left[0] <= 0:
                break
            left[0] -= 1
            x = r.random()
            if x < 0.3 or not alive:
                at = r.choice(alive) if alive and r.random() < .9 else ''
                t = new('t')
                out.append({'op': 'fork', 'id': t, 'at': at})
                chain[t] = [t] + (chain[at] if at else [])
                alive.append(t)
                if r.random() < .85:
                    f = new('f')
                    out.append({'op': 'submit', 'id': f, 'at': t})
                    cb(out, f, chain[t], depth)
                cb(out, t, chain[t][1:], depth)
            else:
                at = r.choice(alive)
                f = new('f')
                out.append({'op': 'submit', 'id': f, 'at': at})
                cb(out, f, chain[at], depth)
                if r.random() < .2:
                    cb(out, f, chain[at], depth)
        return out

    def cb(out, obj, up, depth):
        if r.random() < .7:
            c = new('c')
            out.append({'op': 'cb', 'id': c, 'at': obj})
            if depth > 0 and up:
                body[c] = ops(up, depth - 1)
            else:
                body[c] = []
    main = ops([], r.randint(1, 3))
    while not any(o['op'] == 'submit' for o in main):
        left[0] = budget
        t = [o['id'] for o in main if o['op'] == 'fork']
        main.append({'op': 'submit', 'id': new('f'), 'at': t[0]})
    return {'main': main, 'body': body or {'none': []}}


class Run:
    """prog on a real queue; pick(names of futures) -> names done now"""

    def __init__(self, prog):
        self.prog = prog
        self.queue = Queue(Ex())
        self.obj = {}
        self.ev = []
        self.fired = []
        self.ops(prog['main'])

    def ops(self, ops):
        for o in ops:
            if o['op'] == 'fork':
                self.obj[o['id']] = self.queue.fork(
                    self.obj[o['at']] if o['at'] else None)
            elif o['op'] == 'submit':
                self.obj[o['id']] = self.obj[o['at']].submit(Fut, o['id'])
            else:
                self.queue.add_callback(
                    self.obj[o['at']], lambda c=o['id']: self.fire(c))

    def fire(self, c):
        self.ev.append({'e': 'fire', 'c': c})
        self.fired.append(c)
        self.ops(self.prog['body'].get(c, []))

    def futures(self):
        return sorted(f.name for f in self.queue.__futures__)

    def progress(self, names, form=set):
        self.ev.append({'e': 'progress', 'done': sorted(names)})
        self.queue.progress(form(self.obj[n] for n in names))
        self.ev.append({'e': 'after', 'futs': self.futures()})


def random_run(arg):
    prog = program(arg['seed'], arg['budget'])
    r = random.Random(arg['seed'] + 1)
    run = Run(prog)
    n = 0
    while True:
        futs = run.futures()
        if not futs:
            break
        run.progress(r.sample(futs, r.randint(1, len(futs))
                              if r.random() < .5 else 1),
                     r.choice([set, list, tuple, frozenset]))
        n += 1
        if n > 500:
            raise RuntimeError('does not end')
    run.ev.append({'e': 'end'})
    return {'prog': prog, 'ev': run.ev}


def replay(arg):
    run = Run(arg['prog'])
    for k, h in enumerate(arg['hist']):
        if not set(h['done']) <= set(run.futures()):
            return 'step %d: futures %s, expected at least %s' % (
                k + 1, run.futures(), sorted(h['done']))
        n = len(run.fired)
        run.progress(h['done'])
        got = run.fired[n:]
        if sorted(got) != sorted(h['fired']):
            return 'step %d (%s done): callbacks %s ran, expected %s' % (
                k + 1, sorted(h['done']), sorted(got), sorted(h['fired']))
    return 'futures %s are left' % run.futures() if run.futures() else ''
