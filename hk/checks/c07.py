"""C07: cancelling an execution under asyncio."""
import random

from .. import engcheck as ec


def run(check, recipe=None):
    args = ec.mixed(check.seed, check.n(1500, 20000), {}, 'x', base=7000)
    for k, a in enumerate(args):
        r = random.Random('%s %s' % (check.seed, k))
        a['at'] = ['q', r.randint(0, 6)] if r.random() < .5 else \
            ['t', r.randint(0, 60)]
        if r.random() < .1:
            a['faults'] = {r.randint(1, 6): 'raise'}
    # cancelling other executions does not touch this one
    beside = ec.mixed(check.seed, check.n(250, 4000), {'session_p': 1}, 'a',
                      base=107000)
    args += beside
    ec.traces(check, recipe, args, 'cancelled')
    if recipe is None:
        check.count('scenarios', len(args))
    cat = ec.design(check, recipe, {}, check.n(25, 150),
                    hi=check.n(9, 12), width=6, base=7, cancelling=True)
    ec.behaviours(check, recipe, cat, check.n(500, 6000), aio=10 ** 6,
                  cancelling=True)
