"""Stages shared by the checks decided with the engine specification."""
import functools
import random

from . import drive, gen, mc, tlc
from .build import FAULTS
from .core import parallel

TRACE_CFG = ('SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n'
             'CONSTANT Budget = 20000\n')
MC_CFG = ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
          'CONSTANTS Failing=%s Cancelling=%s Record=%s\n')
MC_INV = ['DepsRespected', 'RequiredStored', 'OrderedSequential',
          'NoExtraCalls', 'NoEmptyVisits', 'WorkConserving', 'Confluent',
          'NoDeadlock', 'CancelWaits']


def wants(recipe, fn):
    return recipe is None or recipe.get('fn') == \
        fn.__module__ + ':' + fn.__name__


def rname(fn):
    return fn.__module__ + ':' + fn.__name__


LARGE = 400000


# -- trace validation --------------------------------------------------------

def execute(arg, **extra):
    """one real execution -> (case for HikuEngineTrace, about it)"""
    scn = gen.Gen(arg['seed'], **arg['flags']).scenario()
    scn.update(extra)
    c, m = drive_one(arg, scn)
    if scn['many'] > 16 and sum(map(len, map(str, c['ev']))) > LARGE:
        # lists of lists of hundreds of objects: more than TLC can search
        scn['many'] = 16
        c, m = drive_one(arg, scn)
    return c, m


def drive_one(arg, scn):
    f = {int(k): v for k, v in (arg.get('faults') or {}).items()}
    mode = arg.get('mode', 'c')
    s = arg.get('sched', arg['seed'])
    if mode == 'c':
        c, m, _ = drive.run_controlled(
            scn, drive.ScriptPick(arg['script']) if 'script' in arg
            else drive.RandomPick(s), f)
    elif mode == 's':
        c, m, _ = drive.run_sync(scn, f)
    elif mode == 't':
        c, m, _ = drive.run_threads(scn, s, f)
    elif mode == 'x':
        c, m, _ = drive.run_cancel(scn, s, arg['at'], f)
    else:
        c, m, _ = drive.run_asyncio(scn, s, f)
    return c, m


def record(arg):
    c, m = execute(arg)
    return c, m['exc']


def validate(check, pairs, what='', fn=record, chunk=3000):
    """TLC decides every recorded execution"""
    rejected = []
    for k in range(0, len(pairs), chunk):
        part = pairs[k:k + chunk]
        cases = [c for _, (c, _) in part]
        res = tlc.run('HikuEngineTrace', TRACE_CFG % 'DSpec', cases)
        verdict = {x['i']: x for x in res.tagged('VERDICT')}
        for i, (arg, (c, exc)) in enumerate(part, 1):
            v = verdict[i]
            check.traces += 1
            # every tried step of the search is a state of the specification
            check.states += v['n']
            check.transitions += v['n']
            check.count('events', len(c['ev']))
            if exc:
                check.count('failing_executions')
            if v['v'] == '?':
                check.count('undecided')
            elif v['v'] != 'yes':
                rejected.append((arg, c, exc))
    if rejected:
        why = diagnose([c for _, c, _ in rejected[:6]])
        for k, (arg, c, exc) in enumerate(rejected):
            w = why.get(k + 1, {'l': 0, 'why': 'rejected'})
            check.fail('%s execution %s: event %d of %d: %s%s' % (
                what, {k: v for k, v in arg.items() if k != 'flags'},
                w['l'], len(c['ev']), w['why'][:400],
                ' (%s)' % exc if exc else ''),
                {'fn': rname(fn), 'arg': arg})
    if pairs:
        check.sample({'execution': pairs[0][0],
                      'events': pairs[0][1][0]['ev'][:6]})


def diagnose(cases):
    """how far the specification can explain rejected executions"""
    worst = {}
    try:
        res = tlc.run('HikuEngineTrace', TRACE_CFG % 'Spec', cases,
                      timeout=60)
    except Exception:
        return {}
    for x in res.tagged('STUCK'):
        if x['l'] >= worst.get(x['i'], {'l': 0})['l']:
            worst[x['i']] = x
    return worst


def traces(check, recipe, args, what='', limit=30):
    if recipe is not None:
        if not wants(recipe, record):
            return
        args = [recipe['arg']]
    validate(check, parallel(check, record, args, limit), what)


def mixed(seed, n, flags, modes='ccccaast', faults=0.0, base=0):
    """arguments of n random executions"""
    out = []
    for k in range(n):
        r = random.Random('%s/%s/%s' % (seed, base, k))
        a = {'seed': seed * 1000003 + base + k, 'flags': flags,
             'mode': modes[k % len(modes)], 'sched': r.randrange(1 << 30)}
        if faults and r.random() < faults:
            a['faults'] = {r.randint(1, 7): r.choice(FAULTS)
                           for _ in range(r.choice([1, 1, 1, 2]))}
        out.append(a)
    return out


# -- model checking of the design ----------------------------------------------

def design(check, recipe, flags, count, hi=9, width=6, what='', base=0,
           liveness=True, cancelling=False):
    """all schedules of a catalogue of small scenarios, in the specification"""
    if recipe is not None:
        return []
    cat = mc.catalogue(check.seed + base, count, flags, hi=hi, width=width)
    cfg = MC_CFG % ('FALSE', 'TRUE' if cancelling else 'FALSE', 'FALSE') + \
        'INVARIANTS ' + ' '.join(MC_INV) + \
        ('\nPROPERTY Terminates CancelStops\n' if liveness else '\n')
    res = tlc.run('HikuEngineMC', cfg, [c for _, c in cat], ok_violation=True)
    check.tlc(res)
    check.count('design_scenarios', len(cat))
    check.count('design_states', res.distinct)
    if res.violated:
        raise RuntimeError('the specification itself is broken:\n'
                           + res.out[-3000:])
    return cat


def replay_one(arg):
    scn = mc.scenario(arg['scn'])
    return mc.replay(scn, arg['beh'])


def replay_thr(arg):
    scn = mc.scenario(arg['scn'])
    return mc.replay_threads(scn, arg['beh'])


def replay_aio(arg):
    scn = mc.scenario(arg['scn'])
    return mc.replay_asyncio(scn, arg['beh'])


def behaviours(check, recipe, cat, num, failing=False, threads=0, aio=0,
               cancelling=False):
    """behaviours of the specification, followed by the real engine"""
    if recipe is not None:
        for fn in (replay_one, replay_thr, replay_aio):
            if wants(recipe, fn):
                why = fn(recipe['arg'])
                check.traces += 1
                if why:
                    check.fail(why, recipe)
        return
    else:
        res = tlc.run('HikuEngineMC',
                      MC_CFG % ('TRUE' if failing else 'FALSE',
                                'TRUE' if cancelling else 'FALSE', 'TRUE'),
                      [c for _, c in cat], workers=4,
                      args=['-simulate', 'num=%d' % max(1, num // 4),
                            '-depth', '200', '-seed', str(check.seed)])
        check.tlc(res)
        seen, args = set(), []
        for b in res.tagged('BEH'):
            key = repr(b)
            if key not in seen:
                seen.add(key)
                args.append({'scn': cat[b['i'] - 1][0], 'beh': b})
        if not args:
            raise RuntimeError('no behaviours generated:\n' + res.out[-2000:])
    if aio:
        for arg, why in parallel(check, replay_aio, args[:aio], 120):
            check.traces += 1
            check.count('behaviours_replayed_with_asyncio')
            if why:
                check.fail('behaviour of the specification is not followed '
                           'with asyncio, scenario %s: %s'
                           % (arg['scn'], why),
                           {'fn': rname(replay_aio), 'arg': arg})
    if cancelling:
        return
    for arg, why in parallel(check, replay_one, args):
        check.traces += 1
        check.count('behaviours_replayed')
        if why:
            check.fail('behaviour of the specification is not followed by '
                       'the engine, scenario %s: %s' % (arg['scn'], why),
                       {'fn': rname(replay_one), 'arg': arg})
    thr = [a for a in args if mc.unambiguous(a['beh'])][:threads]
    bad = 0
    for k in range(0, len(thr), 32):
        if bad > 5:
            break
        for arg, why in parallel(check, replay_thr, thr[k:k + 32], 120):
            check.traces += 1
            check.count('behaviours_replayed_with_threads')
            if why:
                bad += 1
                check.fail('behaviour of the specification is not followed '
                           'with threads, scenario %s: %s'
                           % (arg['scn'], why),
                           {'fn': rname(replay_thr), 'arg': arg})
    if args:
        check.sample({'behaviour': [
            {'returns': h['ret']['fn'], 'of': h['n']}
            for h in args[0]['beh']['hist']]})


# -- exhaustive schedules of real executions -----------------------------------

def explore(arg):
    """every completion order (one task at a time) of one small scenario"""
    scn = gen.Gen(arg['seed'], **arg['flags']).scenario()
    f = {int(k): v for k, v in (arg.get('faults') or {}).items()}
    return [(c, m['exc']) for c, m, _ in drive.all_schedules(
        lambda p: drive.run_controlled(scn, p, f), arg['limit'])]


def schedules(check, recipe, cat, limit, what=''):
    if recipe is not None:
        if not wants(recipe, explore):
            return
        args = [recipe['arg']]
    else:
        args = [dict(a, limit=limit) for a, _ in cat]
    flat, seen = [], 0
    for arg, runs in parallel(check, explore, args, 120):
        if len(runs) < limit:
            check.count('scenarios_with_all_schedules')
        for c in runs:
            flat.append((arg, c))
    check.count('schedules_enumerated', len(flat))
    validate(check, flat, what, fn=explore)
