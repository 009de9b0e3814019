"""C04: the work queue: every callback once, nothing lost, nothing early."""
from .. import engcheck as ec
from .. import queue, tlc
from ..core import parallel

CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Mode = "%s"\n'
INV = 'INVARIANTS Once NoEarly AllRun\nPROPERTY Ends\n'


def run(check, recipe=None):
    if recipe is None:
        small = [{'prog': queue.program(check.seed * 1000 + k, 7), 'ev': []}
                 for k in range(check.n(40, 400))]
        res = tlc.run('HikuQueueMC', CFG % 'mc' + INV, small,
                      ok_violation=True)
        check.tlc(res)
        if res.violated:
            raise RuntimeError('specification broken\n' + res.out[-3000:])
        check.count('design_programs', len(small))
        progs = [{'prog': queue.program(check.seed * 7777 + k, 14), 'ev': []}
                 for k in range(check.n(100, 1000))]
        res = tlc.run('HikuQueueMC', CFG % 'gen', progs, workers=4,
                      args=['-simulate', 'num=%d' % check.n(300, 4000),
                            '-depth', '300', '-seed', str(check.seed)])
        check.tlc(res)
        seen, args = set(), []
        for b in res.tagged('BEH'):
            if repr(b) not in seen:
                seen.add(repr(b))
                args.append({'prog': progs[b['i'] - 1]['prog'],
                             'hist': b['hist']})
    if recipe is None or ec.wants(recipe, queue.replay):
        if recipe is not None:
            args = [recipe['arg']]
        for arg, why in parallel(check, queue.replay, args):
            check.traces += 1
            check.count('behaviours_replayed')
            if why:
                check.fail('queue: ' + why,
                           {'fn': ec.rname(queue.replay), 'arg': arg})
        check.sample({'program': args[0]['prog']['main'],
                      'behaviour': args[0]['hist']})
    if recipe is None or ec.wants(recipe, queue.random_run):
        args = [{'seed': check.seed * 31337 + k, 'budget': 8 + k % 30}
                for k in range(check.n(2000, 30000))]
        if recipe is not None:
            args = [recipe['arg']]
        pairs = parallel(check, queue.random_run, args)
        for k in range(0, len(pairs), 4000):
            part = pairs[k:k + 4000]
            res = tlc.run('HikuQueueMC', CFG % 'trace', [c for _, c in part])
            check.tlc(res)
            acc = {x['i'] for x in res.tagged('ACCEPT')}
            why = {x['i']: x for x in res.tagged('STUCK')}
            for i, (arg, c) in enumerate(part, 1):
                check.traces += 1
                if i not in acc:
                    w = why.get(i, {'l': 0, 'why': 'no verdict'})
                    check.fail('queue program %s: event %d %s: %s' % (
                        arg, w['l'], c['ev'][w['l'] - 1], w['why']),
                        {'fn': ec.rname(queue.random_run), 'arg': arg})
    # the executors: everything in flight is waited for, and only that
    ec.traces(check, recipe, ec.mixed(check.seed, check.n(500, 6000), {},
                                      'cast', base=4000))
    cat = ec.design(check, recipe, dict(nodes=2, depth=2),
                    check.n(20, 100), hi=10, width=7, base=4)
    ec.behaviours(check, recipe, cat, check.n(200, 2000), failing=False,
                  threads=check.n(150, 1500), aio=check.n(80, 800))
