"""Catalogues for model checking the engine, and replay of its behaviours."""
import asyncio
import itertools

from . import gen, drive, tlc
from .build import boom
from .enc import enc, val, opts as enc_opts


def tables(scn):
    """everything loaders can be asked for by this query"""
    data = gen.Data(scn)
    uses = {}

    def walk(q, gi, node):
        items = {i['name']: i for n in scn['graphs'][gi - 1]['nodes']
                 if n['name'] == node for i in n['items']}
        for f in q['fields']:
            it = items[f['name']]
            given = dict(f['py'] or {})
            o = {d['name']: given.get(d['name'], d['py'])
                 for d in it['opts']}
            uses.setdefault((gi, node, f['name']), {})[enc(o)] = o
            if it['k'] == 'l':
                walk(f['node'], gi, it['to'])
    walk(scn['q'], 1, '')
    fs, ls = [], []
    for gi, g in enumerate(scn['graphs'], 1):
        for nd in g['nodes']:
            ids = [''] if nd['name'] == '' else \
                list(dict.fromkeys(scn['pools'][str(gi)][nd['name']]))
            for it in nd['items']:
                if it['sub']:
                    continue
                os = dict(uses.get((gi, nd['name'], it['name']), {}))
                if it['k'] == 'f':      # as a link requires it
                    o = {x['name']: x['py'] for x in it['opts'] if x['has']}
                    os[enc(o)] = o
                if it['k'] == 'f' or not it['opts']:
                    os.setdefault(enc({}), {})
                for o in os.values():
                    if it['k'] == 'f':
                        for x in ids:
                            fs.append({'g': gi, 'n': nd['name'],
                                       'id': '' if nd['name'] == '' else enc(x),
                                       'name': it['name'], 'o': enc_opts(o),
                                       'v': val(data.field(gi, nd['name'], x,
                                                           it, o))})
                    else:
                        reqs = [''] if not it['req'] else \
                            [enc(k) for k in gen.KEYS]
                        for r in reqs:
                            ls.append({'g': gi, 'n': nd['name'], 'req': r,
                                       'name': it['name'], 'o': enc_opts(o),
                                       'ids': [enc(x) for x in data.link(
                                           gi, nd['name'], it, r, o)]})
    case = gen.spec_scn(scn)
    case['data'] = {'f': fs, 'l': ls}
    low = str(len(scn['graphs']))
    case['pools'] = {n: [enc(x) for x in p]
                     for n, p in scn['pools'][low].items()}
    return case


def scenario(arg):
    return gen.Gen(arg['seed'], **dict(arg['flags'], big_p=0)).scenario()


def catalogue(seed, count, flags, lo=3, hi=9, width=6, tries=4000):
    """scenarios small enough for all schedules to be explored; how large
    they are is told by the specification"""
    out = []
    for k in range(0, tries, 200):
        args = [{'seed': seed * 100000 + k + j, 'flags': flags}
                for j in range(min(200, count * 5))]
        cases = [tables(scenario(a)) for a in args]
        res = tlc.run('HikuEngineMC', 'SPECIFICATION SizeSpec\n'
                      'CHECK_DEADLOCK FALSE\n'
                      'CONSTANTS Failing=FALSE Cancelling=FALSE '
                      'Record=FALSE\n', cases)
        sizes = {x['i']: x for x in res.tagged('SIZE')}
        for j, (arg, case) in enumerate(zip(args, cases), 1):
            if lo <= sizes[j]['n'] <= hi and sizes[j]['w'] <= width:
                out.append((arg, dict(case, size=sizes[j]['n'])))
                if len(out) == count:
                    return out
    return out


# -- replay of behaviours generated by TLC ------------------------------------

def sig_spec(s):
    return (s['fn'],
            frozenset((k[0], frozenset(map(tuple, k[1]))) for k in s['items']),
            frozenset(map(tuple, s['opts'])),
            frozenset(s['ids']), frozenset(s['reqs']))


def sig_call(ev):
    link = ev['k'] == 'l'
    return (ev['fn'],
            frozenset((i['name'], frozenset(map(tuple, i['opts'])))
                      for i in ev['items']),
            frozenset(map(tuple, ev['opts'])) if link else frozenset(),
            frozenset(ev['ids']), frozenset(ev['reqs']))


class Divergence(Exception):
    pass


class Follow:
    """completes calls in the order of a behaviour of the specification"""

    def __init__(self, hist, trace_of, script):
        self.hist = hist
        self.trace_of = trace_of
        self.script = script
        self.branching = []
        self.pos = 0
        self.boom = None

    def __call__(self, futs):
        sigs = []
        calls = {e['cid']: e for e in self.trace_of().events
                 if e['e'] == 'call'}
        sigs = [(sig_call(calls[f.cid]), f) for f in futs if f.cid]
        if self.pos >= len(self.hist):
            raise Divergence('calls after the end: %s'
                             % sorted(s[0] for s, _ in sigs))
        step = self.hist[self.pos]
        want = frozenset(sig_spec(s) for s in step['infl'])
        got = frozenset(s for s, _ in sigs)
        if want != got or step['n'] != len(sigs):
            raise Divergence(
                'step %d: waiting for %s, expected %s' % (
                    self.pos + 1, sorted((s[0], sorted(s[3])) for s, _ in sigs),
                    sorted((s[0], sorted(s[3])) for s in want)))
        target = sig_spec(step['ret'])
        cands = [f for s, f in sigs if s == target]
        k = len(self.branching)
        c = self.script[k] if k < len(self.script) else 0
        self.branching.append(len(cands))
        fut = cands[min(c, len(cands) - 1)]
        if step['out'] == 'raise':
            self.boom = boom(self.pos + len(str(step['ret'])))
            fut.out = self.boom
        self.pos += 1
        return [fut]


def replay(scn, beh):
    """'' when some real execution follows the behaviour"""
    why = ''
    script = []
    for _ in range(64):
        trace_box = []
        f = Follow(beh['hist'], lambda: trace_box[0], script)
        case, meta, res, exc = drive.run_controlled(
            scn, f, trace_box=trace_box, raw=True)
        why = outcome(f, beh, case, exc)
        if not why:
            return ''
        full = [(script[i] if i < len(script) else 0, b)
                for i, b in enumerate(f.branching)]
        while full and full[-1][0] + 1 >= full[-1][1]:
            full.pop()
        if not full:
            break
        script = [c for c, _ in full[:-1]] + [full[-1][0] + 1]
    return why


def outcome(f, beh, case, exc):
    if isinstance(exc, Divergence):
        return str(exc)
    if f.pos < len(beh['hist']):
        return 'ended after %d of %d returns: %r' % (f.pos, len(beh['hist']),
                                                     exc)
    end = case['ev'][-1]
    if end.get('touched'):
        return 'changed by the execution: %s' % end['touched']
    if beh['failed']:
        if beh['hist'] and exc is not f.boom:
            return 'the error of the loader did not reach the caller: %r' % exc
        if exc is None:
            return 'no error'
        return ''
    if exc is not None:
        return 'failed: %r' % exc
    want = {tuple(x) for x in beh['flat']}
    got = {tuple(x) for x in end['flat']}
    if want != got:
        return 'result differs: missing %s, unexpected %s' % (
            sorted(want - got)[:3], sorted(got - want)[:3])
    if end['exposed']:
        return 'not requested keys are readable: %s' % end['exposed'][:3]
    return ''


class FollowThreads:
    """the same for threads: waits until the expected calls are running"""

    def __init__(self, hist):
        self.hist = hist
        self.pos = 0
        self.boom = None
        self.ambiguous = False
        self.seen = ''

    def __call__(self, calls):
        if self.pos >= len(self.hist):
            if calls and not self.boom:
                self.seen = 'calls after the end'
            return None
        step = self.hist[self.pos]
        sigs = {c: sig_call(e) for c, e in calls.items()}
        want = frozenset(sig_spec(s) for s in step['infl'])
        self.seen = 'step %d: running %s, expected %s' % (
            self.pos + 1, sorted(s[0] for s in sigs.values()),
            sorted(s[0] for s in want))
        if frozenset(sigs.values()) != want or len(sigs) != step['n']:
            return None
        target = sig_spec(step['ret'])
        cands = [c for c, s in sigs.items() if s == target]
        self.ambiguous |= len(cands) > 1
        if step['out'] == 'raise':
            self.boom = boom(self.pos + len(str(step['ret'])))
        self.pos += 1
        return cands[0], self.boom if step['out'] == 'raise' else None


def unambiguous(beh):
    """no two running calls of the behaviour look the same"""
    return all(len(h['infl']) == h['n'] for h in beh['hist'])


def replay_threads(scn, beh):
    f = FollowThreads(beh['hist'])
    case, why, exc = drive.run_gated_threads(scn, f)
    if why:
        return why + ': ' + f.seen
    return outcome(f, beh, case, exc)


class FollowAsync:
    """the same for asyncio, with cancellation of the execution"""

    def __init__(self, hist):
        self.hist = hist
        self.pos = 0
        self.boom = None
        self.ambiguous = False
        self.why = ''

    def __call__(self, calls, cancelled, done):
        """calls which did not end, those of them which were cancelled ->
        what to do next: (what, call) or None"""
        if self.pos >= len(self.hist):
            if calls and not self.boom:
                self.why = 'calls after the end'
            return None
        step = self.hist[self.pos]
        sigs = {c: sig_call(e) for c, e in calls.items()}
        want = frozenset(sig_spec(s) for s in step['infl'])
        if frozenset(sigs.values()) != want or len(sigs) != step['n']:
            self.why = 'step %d: running %s, expected %s' % (
                self.pos + 1, sorted((s[0], sorted(s[3]))
                                     for s in sigs.values()),
                sorted((s[0], sorted(s[3])) for s in want))
            return None
        if done:
            self.why = 'step %d: ended early' % (self.pos + 1)
            return None
        if step['out'] == 'gone' and set(calls) != set(cancelled):
            self.why = 'step %d: loaders are not cancelled' % (self.pos + 1)
            return None
        self.pos += 1
        if step['out'] == 'cancel':
            return 'cancel', None
        target = sig_spec(step['ret'])
        cands = [c for c, s in sigs.items() if s == target]
        self.ambiguous |= len(cands) > 1
        if step['out'] == 'raise':
            self.boom = boom(self.pos + len(str(step['ret'])))
        return step['out'], cands[0]


def replay_asyncio(scn, beh):
    f = FollowAsync(beh['hist'])
    case, exc = drive.run_gated_asyncio(scn, f, repr(beh['hist']))
    if f.why and not (f.ambiguous and not f.why.endswith('not cancelled')):
        return f.why
    if f.ambiguous and f.pos < len(beh['hist']):
        return ''           # another of equal calls was meant
    if any(h['out'] == 'cancel' for h in beh['hist']):
        if f.pos < len(beh['hist']):
            return 'ended after %d of %d steps: %r' % (
                f.pos, len(beh['hist']), exc)
        if not isinstance(exc, asyncio.CancelledError):
            return 'a cancelled execution ended with %r' % exc
        return ''
    return outcome(f, beh, case, exc)
