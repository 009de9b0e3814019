"""Running real queries under controlled schedules and recording traces."""
import asyncio
import contextvars
import itertools
import random
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.executors.threads import ThreadsExecutor
from hiku.executors.asyncio import AsyncIOExecutor

from .build import Loaders, OTHER, Trace, Boom, mkgraphs, mkquery
from .enc import enc
from .qenc import explore
from .gen import spec_scn

CTX = {'token': 'tok-1', 'n': 3}


def context(scn):
    return {} if scn.get('noctx') else CTX


def given(scn):
    """the argument of execute"""
    return () if scn.get('noctx') else (CTX,)


# -- executions before and beside the one of interest ------------------------

def before(scn, run, trace):
    """executes queries first with the same engine and graph; the query of
    interest, which may be one of them"""
    query = None
    memo = {} if scn.get('aliased') else None
    trace.keep('the context', CTX)

    def make():
        q = mkquery(scn['q'], memo)
        if scn.get('explored'):
            explore(q, scn['explored'] > 1)
        trace.keep('the query', q)
        return q
    for n, (k, fault) in enumerate(scn.get('before', [])):
        t = Trace()
        t.ctx, t.fault, t.alone = {'token': 'before %d' % n, 'n': n}, fault, \
            True
        if k == -1:
            query = query or make()
        run(query if k == -1 else
            mkquery(scn['others'][k] if k >= 0 else scn['q'], memo), t)
    return query or make()


def separately(engine, graph, query, trace):
    def run():
        OTHER.set(trace)
        try:
            engine.execute(graph, query, trace.ctx)
        except Exception:
            pass
    contextvars.copy_context().run(run)


def beside(scn, query):
    """queries to execute at the same time"""
    for n, k in enumerate(scn.get('beside', [])):
        t = Trace()
        t.ctx = {'token': 'beside %d' % n, 'n': 4}
        yield query if k < 0 else mkquery(scn['others'][k]), t


class Pool(ThreadPoolExecutor):
    """tasks know the execution they belong to"""

    def submit(self, fn, *args, **kwargs):
        return super().submit(contextvars.copy_context().run, fn, *args,
                              **kwargs)


# -- the controlled executor -------------------------------------------------

class Fut:
    def __init__(self, cid, fn, out, ret):
        self.cid, self.fn, self.out, self.ret = cid, fn, out, ret
        self.done = False

    def result(self):
        assert self.done, 'result of an unfinished task was used'
        if isinstance(self.out, Exception):
            raise self.out
        return self.out


class Controlled:
    """Every task stays unfinished until the schedule finishes it.

    pick(list of in-flight Fut) -> list of Fut to finish together
    """

    def __init__(self, trace, pick, log_quiesce=True):
        self.trace = trace
        self.pick = pick
        self.log_quiesce = log_quiesce
        self.rounds = 0

    def submit(self, fn, *args, **kwargs):
        try:
            fut = fn(*args, **kwargs)
        except Exception as e:     # not one of our loaders
            fut = Fut(0, getattr(fn, '__name__', '?'), e, None)
        if not isinstance(fut, Fut):
            fut = Fut(0, getattr(fn, '__name__', '?'), fut, None)
        return fut

    def process(self, queue, workflow):
        while True:
            futs = list(queue.__futures__)
            if self.log_quiesce:
                self.trace.add(e='quiesce',
                               infl=sorted(f.cid for f in futs if f.cid))
            if not futs:
                break
            futs.sort(key=lambda f: f.cid)
            done = self.pick(futs)
            for f in done:
                f.done = True
                if f.ret is not None:
                    self.trace.add(**f.ret)
            queue.progress(done)
            self.rounds += 1
            if self.rounds > 10000:
                raise RuntimeError('does not terminate')
        return workflow.result()


class RandomPick:
    def __init__(self, seed, batch=0.3):
        self.r = random.Random(seed)
        self.batch = batch

    def __call__(self, futs):
        if self.r.random() < self.batch:
            k = self.r.randint(1, len(futs))
        else:
            k = 1
        return self.r.sample(futs, k)


class ScriptPick:
    """Follow recorded choices; used to enumerate all schedules"""

    def __init__(self, script):
        self.script = list(script)
        self.pos = 0
        self.branching = []

    def __call__(self, futs):
        n = len(futs)
        c = self.script[self.pos] if self.pos < len(self.script) else 0
        self.branching.append(n)
        self.pos += 1
        return [futs[c]]


def all_schedules(run, limit):
    """run(pick) for every completion order (one at a time), up to limit"""
    script, n = [], 0
    while True:
        p = ScriptPick(script)
        yield run(p)
        n += 1
        full = [(p.script[i] if i < len(p.script) else 0, b)
                for i, b in enumerate(p.branching)]
        while full and full[-1][0] + 1 >= full[-1][1]:
            full.pop()
        if not full or n >= limit:
            return
        script = [c for c, _ in full[:-1]] + [full[-1][0] + 1]


# -- reading results ---------------------------------------------------------

def read(proxy, q, g, node, path, out, exposed):
    """the result the way a user reads it: by result keys"""
    items = {i['name']: i for n in g['nodes'] if n['name'] == node
             for i in n['items']}
    keys = {f['alias'] or f['name'] for f in q['fields']}
    for name in sorted(set(items) | {f['name'] for f in q['fields']}
                       | {'__nope__'}):
        if name in keys:
            continue
        try:
            proxy[name]
        except KeyError:
            pass
        except Exception as e:
            exposed.append([path, name + ' ' + type(e).__name__])
        else:
            exposed.append([path, name])
        try:
            getattr(proxy, name)
        except AttributeError:
            pass
        except Exception as e:
            exposed.append([path, '.' + name + ' ' + type(e).__name__])
        else:
            exposed.append([path, '.' + name])
    for f in q['fields']:
        key = f['alias'] or f['name']
        p = path + '/' + key
        it = items[f['name']]
        try:
            v = proxy[key]
        except Exception as e:
            out.append([p, 'EXC:' + type(e).__name__])
            continue
        try:
            v2 = getattr(proxy, key)
            if v2 is not v and it['k'] == 'f':
                exposed.append([path, key + ' attribute differs'])
        except Exception:
            exposed.append([path, key + ' no attribute'])
        if it['k'] == 'f':
            out.append([p, enc(v)])
        elif v is None:
            out.append([p, 'null'])
        elif isinstance(v, list):
            out.append([p, 'len:%d' % len(v)])
            for i, x in enumerate(v):
                read(x, f['node'], g, it['to'], '%s[%d]' % (p, i), out, exposed)
        elif hasattr(v, '__node__'):
            out.append([p, 'obj'])
            read(v, f['node'], g, it['to'], p, out, exposed)
        else:
            out.append([p, 'VALUE:' + enc(v)])


def end_event(trace, scn, res, exc):
    if exc is not None:
        kind = 'cancelled' if isinstance(exc, asyncio.CancelledError) else \
            'loader' if any(exc is b for b in trace.booms) else 'other'
        return dict(e='end', ok=False, exc=kind, flat=[], exposed=[],
                    touched=trace.touched())
    flat, exposed = [], []
    try:
        read(res, scn['q'], scn['graphs'][0], '', '', flat, exposed)
    except Exception as e:
        flat.append(['EXC', type(e).__name__])
    return dict(e='end', ok=True, exc='', flat=flat, exposed=exposed,
                touched=trace.touched())


# -- executions --------------------------------------------------------------

def finish_case(scn, trace, res, exc, schedule):
    trace.add(**end_event(trace, scn, res, exc))
    case = spec_scn(scn)
    case['ev'] = trace.events
    meta = {'scn': scn, 'schedule': schedule,
            'exc': repr(exc) if exc is not None else None, 'trace': trace}
    return case, meta, res


def run_controlled(scn, pick, faults=None, label='', post=None,
                   trace_box=None, raw=False):
    trace = Trace()
    if trace_box is not None:
        trace_box.append(trace)

    def hold(cid, fn, out, ret):
        return Fut(cid, fn, out, ret)
    ld = Loaders(scn, trace, context(scn), faults, 'sync', hold)
    graph = mkgraphs(scn, ld)
    res = exc = None
    executor = Controlled(trace, pick)
    engine = Engine(executor)

    def first(q, t):
        executor.trace, executor.pick = t, lambda futs: futs[:1]
        separately(engine, graph, q, t)
    query = before(scn, first, trace)
    executor.trace, executor.pick, executor.rounds = trace, pick, 0
    try:
        res = engine.execute(graph, query, *given(scn))
    except Exception as e:
        exc = e
    out = finish_case(scn, trace, res, exc, {'kind': 'controlled',
                                             'label': label,
                                             'faults': faults or {}})
    if post is not None:
        post(graph, query, res, exc)
    if raw:
        return out + (exc,)
    return out


def run_sync(scn, faults=None):
    trace = Trace()
    ld = Loaders(scn, trace, context(scn), faults, 'sync')
    graph = mkgraphs(scn, ld)
    res = exc = None
    engine = Engine(SyncExecutor())
    query = before(scn, lambda q, t: separately(engine, graph, q, t),
                   trace)
    # loaders which execute queries themselves
    inner = list(beside(scn, query))
    orig = ld.deliver
    count = itertools.count()

    def deliver(out):
        if inner and OTHER.get() is None and next(count) == at:
            separately(engine, graph, *inner.pop())
        return orig(out)
    at = len(inner) and scn['q']['fields'] and len(scn['q']['fields']) % 3
    if inner:
        ld.deliver = deliver
    try:
        res = engine.execute(graph, query, *given(scn))
    except Exception as e:
        exc = e
    return finish_case(scn, trace, res, exc,
                       {'kind': 'sync', 'faults': faults or {}})


def run_threads(scn, seed, faults=None, workers=4):
    trace = Trace()
    ld = Loaders(scn, trace, context(scn), faults, 'sync')
    graph = mkgraphs(scn, ld)
    r = random.Random(seed)
    orig = ld.deliver

    def deliver(out):
        with trace.lock:
            d = r.random()
        if d < 0.5:
            time.sleep(d * 0.002)
        return orig(out)
    ld.deliver = deliver
    res = exc = None
    with Pool(workers) as pool:
        engine = Engine(ThreadsExecutor(pool))
        query = before(scn, lambda q, t: separately(engine, graph, q, t),
                   trace)
        ths = [threading.Thread(target=separately, args=(engine, graph) + x)
               for x in beside(scn, query)]
        for t in ths:
            t.start()
        try:
            res = engine.execute(graph, query, *given(scn))
        except Exception as e:
            exc = e
        for t in ths:
            t.join()
        # calls still running after a failure belong to the execution
        with trace.lock:
            n = len(trace.events)
    if exc is not None:
        trace.events = drop_orphans(trace.events, n)
    return finish_case(scn, trace, res, exc,
                       {'kind': 'threads', 'faults': faults or {},
                        'seed': seed})


def drop_orphans(events, n):
    return events[:n]


def run_asyncio(scn, seed, faults=None):
    trace = Trace()
    ld = Loaders(scn, trace, context(scn), faults, 'async')
    r = random.Random(seed)
    res = exc = None

    async def main():
        nonlocal res, exc
        loop = asyncio.get_running_loop()
        pending = {}

        async def gate(cid, fn):
            f = loop.create_future()
            o = OTHER.get()
            k = traces.index(o) + 1 if o else 0, cid
            pending[k] = f
            try:
                await f
            finally:
                pending.pop(k, None)
        graph = mkgraphs(scn, ld)
        engine = Engine(AsyncIOExecutor(loop))
        traces = []

        async def other(q, t):
            OTHER.set(t)
            try:
                await engine.execute(graph, q, t.ctx)
            except Exception:
                pass
        first = []
        query = before(scn, lambda q, tr: first.append((q, tr)), trace)
        while first:
            await loop.create_task(other(*first.pop(0)))
        ld.gate = gate
        victims = []
        for q, tr in beside(scn, query):
            traces.append(tr)
            x = loop.create_task(other(q, tr))
            if r.random() < .5:      # cancelled at some time
                victims.append(x)

        async def execute():
            return await engine.execute(graph, query, *given(scn))
        t = loop.create_task(execute())
        while not t.done():
            for _ in range(60):
                await asyncio.sleep(0)
            if t.done():
                break
            trace.add(e='quiesce', infl=sorted(c for k, c in pending if not k))
            if victims and r.random() < .3:
                victims.pop().cancel()
                continue
            if not pending:
                for _ in range(200):
                    await asyncio.sleep(0)
                if not t.done() and not pending:
                    t.cancel()
                    exc = RuntimeError('stalled')
                    break
                continue
            ks = r.sample(sorted(pending),
                          r.randint(1, len(pending)) if r.random() < .3 else 1)
            for k in ks:
                f = pending.pop(k)
                if not f.done():
                    f.set_result(None)
        n = len(trace.events)
        try:
            res = await t
        except asyncio.CancelledError:
            exc = exc or RuntimeError('cancelled')
        except Exception as e:
            exc = e
        me = asyncio.current_task()
        rest = [x for x in asyncio.all_tasks() if x is not me]
        for x in rest:
            x.cancel()
        await asyncio.gather(*rest, return_exceptions=True)
        del trace.events[n:]
    loop = asyncio.new_event_loop()
    try:
        loop.set_exception_handler(lambda l, c: None)
        asyncio.set_event_loop(loop)
        loop.run_until_complete(main())
    finally:
        asyncio.set_event_loop(None)
        loop.close()
    return finish_case(scn, trace, res, exc,
                       {'kind': 'asyncio', 'faults': faults or {},
                        'seed': seed})


def run_cancel(scn, seed, at, faults=None):
    """the caller cancels the execution.  at: ('q', n) at the n-th quiescence,
    ('t', n) after n iterations of the event loop"""
    trace = Trace()
    ld = Loaders(scn, trace, context(scn), faults, 'async')
    r = random.Random(seed)
    kinds = ['cancel', 'cancel', 'raise', 'return']
    ld.cleanup = lambda cid: (r.choice(kinds), r.choice([0, 1, 3, 10]))
    res = exc = None

    async def main():
        nonlocal res, exc
        loop = asyncio.get_running_loop()
        pending = {}

        async def gate(cid, fn):
            f = loop.create_future()
            o = OTHER.get()
            k = traces.index(o) + 1 if o else 0, cid
            pending[k] = f
            try:
                await f
            finally:
                pending.pop(k, None)
        ld.gate = gate
        graph = mkgraphs(scn, ld)
        engine, query = Engine(AsyncIOExecutor(loop)), mkquery(scn['q'])
        traces, others = [], list(beside(scn, query))

        async def other(q, tr):
            OTHER.set(tr)
            await engine.execute(graph, q, tr.ctx)

        async def execute():
            return await engine.execute(graph, query, *given(scn))
        k = r.randint(0, len(others))      # started earlier
        for q, tr in others[:k]:
            traces.append(tr)
            loop.create_task(other(q, tr))
        t = loop.create_task(execute())
        for q, tr in others[k:]:
            traces.append(tr)
            loop.create_task(other(q, tr))
        ticks = quies = 0
        canc = False

        def cancel():
            nonlocal canc
            if not t.done() and t.cancel():
                trace.add(e='cancel')
                canc = True
        stalled = 0
        while not t.done() and not canc:
            for _ in range(r.choice([1, 2, 5, 60])):
                if at[0] == 't' and ticks == at[1] and not canc:
                    cancel()
                ticks += 1
                await asyncio.sleep(0)
                if t.done() or canc:
                    break
            if t.done() or canc:
                break
            if at[0] == 'q' and quies == at[1]:
                cancel()
                break
            quies += 1
            if not pending:
                stalled += 1
                if stalled > 500:
                    exc = RuntimeError('stalled')
                    t.cancel()
                    break
                continue
            stalled = 0
            ks = r.sample(sorted(pending),
                          r.randint(1, len(pending)) if r.random() < .3 else 1)
            for k in ks:
                if not pending[k].done():
                    pending[k].set_result(None)
        # a cancelled execution has to end by itself
        for _ in range(3000):
            if t.done():
                break
            await asyncio.sleep(0)
        try:
            if t.done():
                res = await t
            else:
                exc = RuntimeError('does not end after the cancellation')
        except (asyncio.CancelledError, Exception) as e:
            exc = exc or e
        n = len(trace.events)
        trace.add(**end_event(trace, scn, res, exc))
        me = asyncio.current_task()
        rest = [x for x in asyncio.all_tasks() if x is not me]
        for x in rest:
            x.cancel()
        await asyncio.gather(*rest, return_exceptions=True)
        del trace.events[n + 1:]
    loop = asyncio.new_event_loop()
    try:
        loop.set_exception_handler(lambda l, c: None)
        asyncio.set_event_loop(loop)
        loop.run_until_complete(main())
    finally:
        asyncio.set_event_loop(None)
        loop.close()
    case = spec_scn(scn)
    case['ev'] = trace.events
    return case, {'scn': scn, 'exc': repr(exc) if exc is not None else None,
                  'schedule': None}, res


def run_gated_threads(scn, step, workers=16, limit=15):
    """ThreadsExecutor with loaders which wait for a permission to return.

    step(calls in flight) -> None (not there yet), or (cid, outcome)"""
    trace = Trace()
    ld = Loaders(scn, trace, context(scn), None, 'sync')
    cond = threading.Condition()
    infl, allowed = {}, {}
    over = [False]

    def hold(cid, fn, out, ret):
        with cond:
            infl[cid] = True
            cond.notify_all()
            cond.wait_for(lambda: cid in allowed or over[0], limit * 4)
            infl.pop(cid)
            boom = allowed.get(cid)
        if boom is not None:
            raise boom
        return ld.deliver(out)
    ld.hold = hold
    graph = mkgraphs(scn, ld)
    box = {}

    def execute():
        with ThreadPoolExecutor(workers) as pool:
            try:
                box['res'] = Engine(ThreadsExecutor(pool)).execute(
                    graph, mkquery(scn['q']), *given(scn))
            except Exception as e:
                box['exc'] = e
            with cond:      # lets loaders left behind end
                over[0] = True
                cond.notify_all()
        with cond:
            box['done'] = True
            cond.notify_all()
    th = threading.Thread(target=execute, daemon=True)
    th.start()
    why = ''
    try:
        while True:
            chosen = []

            def ready():
                if 'done' in box:
                    return True
                with trace.lock:
                    calls = {e['cid']: e for e in trace.events
                             if e['e'] == 'call'}
                x = step({c: calls[c] for c in infl if c not in allowed})
                if x is not None:
                    chosen.append(x)
                return bool(chosen)
            with cond:
                if not cond.wait_for(ready, limit):
                    why = 'waited %d s' % limit
                    break
                if not chosen:
                    break
                cid, boom = chosen[0]
                allowed[cid] = boom
                cond.notify_all()
    finally:
        with cond:
            over[0] = True
            cond.notify_all()
        th.join(limit)
    trace.add(**end_event(trace, scn, box.get('res'), box.get('exc')))
    case = spec_scn(scn)
    case['ev'] = trace.events
    return case, why, box.get('exc')


def run_gated_asyncio(scn, step, seed=0):
    """AsyncIOExecutor with loaders which wait for a permission to return.

    step(calls in flight, cancelled ones, ended) -> (what, cid) or None"""
    trace = Trace()
    ld = Loaders(scn, trace, context(scn), None, 'async')
    r = random.Random(seed)
    res = exc = None

    async def main():
        nonlocal res, exc
        loop = asyncio.get_running_loop()
        gates, holds = {}, {}

        async def gate(cid, fn):
            f = gates[cid] = loop.create_future()
            try:
                await f
            finally:
                gates.pop(cid)

        def cleanup(cid):
            f = holds[cid] = loop.create_future()
            f.add_done_callback(lambda _: holds.pop(cid))
            return r.choice(['cancel', 'cancel', 'raise', 'return']), f
        ld.gate, ld.cleanup = gate, cleanup
        graph = mkgraphs(scn, ld)

        async def execute():
            return await Engine(AsyncIOExecutor(loop)).execute(
                graph, mkquery(scn['q']), *given(scn))
        t = loop.create_task(execute())
        while True:
            for _ in range(60):
                await asyncio.sleep(0)
            calls = {e['cid']: e for e in trace.events if e['e'] == 'call'
                     and (e['cid'] in gates or e['cid'] in holds)}
            x = step(calls, list(holds), t.done())
            if x is None:
                break
            what, cid = x
            if what == 'cancel':
                t.cancel()
            elif what == 'gone':
                if r.random() < .2:     # once more, it has to wait anyway
                    t.cancel()
                    for _ in range(20):
                        await asyncio.sleep(0)
                holds[cid].set_result(None)
            elif what == 'raise':
                gates[cid].set_exception(step.boom)
            else:
                gates[cid].set_result(None)
        if t.done():
            try:
                res = await t
            except (asyncio.CancelledError, Exception) as e:
                exc = e
        else:
            exc = RuntimeError('does not end')
        n = len(trace.events)
        trace.add(**end_event(trace, scn, res, exc))
        me = asyncio.current_task()
        rest = [x for x in asyncio.all_tasks() if x is not me]
        for x in rest:
            x.cancel()
        for _ in range(3):
            for f in list(holds.values()):
                f.set_result(None)
            await asyncio.sleep(0)
        await asyncio.gather(*rest, return_exceptions=True)
        del trace.events[n + 1:]
    loop = asyncio.new_event_loop()
    try:
        loop.set_exception_handler(lambda l, c: None)
        asyncio.set_event_loop(loop)
        loop.run_until_complete(main())
    finally:
        asyncio.set_event_loop(None)
        loop.close()
    case = spec_scn(scn)
    case['ev'] = trace.events
    return case, exc
