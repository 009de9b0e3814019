"""C17: telemetry."""
import asyncio
import random
import time
from concurrent.futures import ThreadPoolExecutor

from prometheus_client import CollectorRegistry, Summary

from hiku.engine import Engine, pass_context
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.executors.sync import SyncExecutor
from hiku.executors.threads import ThreadsExecutor
from hiku.expr.core import S
from hiku.graph import Field, Graph, Link, Node, Root, apply
from hiku.query import Field as QF, Link as QL, Node as QN
from hiku.result import denormalize
from hiku.sources.graph import SubGraph
from hiku.telemetry.prometheus import AsyncGraphMetrics, GraphMetrics
from hiku.types import Optional, Sequence, TypeRef

from .. import cases, engcheck as ec
from ..core import parallel
from ..enc import enc

FLAGS = dict(nodes=3, depth=3, ctx_p=0.4, session_p=0, share_p=0, big_p=0.01)
MODULE = 'HikuMetricsCases'


def samples(registry):
    out = {}
    for metric in registry.collect():
        for s in metric.samples:
            k = tuple(s.labels.get(x, '') for x in ('graph', 'node', 'field'))
            d = out.setdefault(k, {'count': 0, 'us': 0})
            if s.name.endswith('_count'):
                d['count'] = int(s.value)
            elif s.name.endswith('_sum'):
                d['us'] = int(s.value * 1e6)
    return [dict(graph=g, node=n, field=f, **d)
            for (g, n, f), d in out.items()]


def record(arg):
    c, m = ec.execute(arg, metrics=True)
    trace, scn = m['trace'], m['scn']
    node_of = {}
    for nd in scn['graphs'][0]['nodes']:
        for it in nd['items']:
            if not it['sub']:
                node_of[it['fn']] = (nd['name'] or 'Root', it)
    made, calls = {}, []
    for ev in c['ev']:
        if ev['e'] == 'call':
            made[ev['cid']] = ev
        elif ev['e'] == 'ret' and ev['out'] == 'value':
            ev = made[ev['cid']]
            if ev['fn'] in node_of:
                node, it = node_of[ev['fn']]
                calls.append({'node': node, 'ms': 0, 'fields':
                              [it['name']] if ev['k'] == 'l' else
                              [i['name'] for i in ev['items']]})
    # fields of subgraphs are known by name only: names are unique
    names = {}
    for nd in scn['graphs'][0]['nodes']:
        for it in nd['items']:
            if it['sub']:
                names.setdefault((it['sub'], it['name']), []).append(
                    nd['name'] or 'Root')
    ok = True
    for n, sg in enumerate(getattr(trace, 'sgs', ()), 1):
        for fields in sg.calls:
            nodes = names[n, fields[0]]
            if len(nodes) > 1:
                ok = False
            calls.append({'node': nodes[0], 'ms': 0, 'fields': fields})
    mc = {'calls': calls, 'samples': samples(trace.registry),
          'failed': m['exc'] is not None}
    if m['exc'] and arg['mode'] == 'c':
        ok = False       # calls are made before they are observed there
    return c, m['exc'], mc if ok else None


# -- loaders shared by nodes, time ----------------------------------------------

def inside(g, q):
    async def go():
        return await Engine(AsyncIOExecutor()).execute(g, q, {'token': 7})
    return asyncio.run(asyncio.wait_for(go(), 20))


def shared(arg):
    r = random.Random(arg['seed'])
    asynchronous = r.random() < .5
    calls = []
    delay = arg.get('delay', 0)

    def mark(node, fields, t):
        calls.append({'node': node, 'fields': fields, 'ms': t})

    names = ['Root', 'A', 'B', 'C'][:r.randint(2, 4)]
    graphs = {}

    def loader(kind):
        # identifiers tell nodes apart
        ctx = r.random() < .3

        def body(args):
            if ctx:
                assert args[0]['token'] == 7
                args = args[1:]
            t = r.choice([0, delay, delay])
            if kind == 'link':
                return t, [[i[0] + '1', i[0] + '2'] for i in args[0]]
            fields, ids = args[0], (list(args[1]) if args[1:] else None)
            mark({'a': 'A', 'b': 'B', 'c': 'C'}[ids[0][0]] if ids else 'Root',
                 [f.name for f in fields], t)
            row = [f.name for f in fields]
            return t, row if ids is None else [
                [f.name + i if f.name != 'id' else i for f in fields]
                for i in ids]
        if asynchronous:
            async def load(*args):
                t, out = body(args)
                await asyncio.sleep(t / 1000)
                return out
        else:
            def load(*args):
                t, out = body(args)
                time.sleep(t / 1000)
                return out
        return pass_context(load) if ctx else load
    loaders = [loader('fields') for _ in range(r.randint(1, 2))]
    nodes = []
    for n in names:
        items = [Field('id', None, loaders[0])] if n != 'Root' else []
        for f in ['f0', 'f1', 'f2'][:r.randint(1, 3)]:
            items.append(Field(f, None, r.choice(loaders)))
        for to in names[1:]:
            if n == 'Root' or r.random() < .6:
                def link(*args, n=n, to=to, t=0):
                    mark(n, ['to' + to], t)
                    x = [to.lower() + '1', to.lower() + '2']
                    return x if n == 'Root' else [x for _ in args[0]]
                if asynchronous:
                    async def alink(*args, link=link):
                        t = r.choice([0, delay // 2])
                        await asyncio.sleep(t / 1000)
                        return link(*args, t=t)
                else:
                    def alink(*args, link=link):
                        t = r.choice([0, delay // 2])
                        time.sleep(t / 1000)
                        return link(*args, t=t)
                items.append(Link('to' + to, Sequence[TypeRef[to]], alink,
                                  requires=None if n == 'Root' else 'id'))
        nodes.append(Root(items) if n == 'Root' else Node(n, items))
        graphs[n] = items
    graph = Graph(nodes)

    def sub(n, depth):
        fs = []
        for it in graphs[n]:
            if isinstance(it, Link):
                if depth and r.random() < .7:
                    # calls of one loader overlap
                    for alias in r.choice([[None], [None], [None, 'x']]):
                        fs.append(QL(it.name, sub(it.name[2:], depth - 1),
                                     alias=alias and it.name + alias))
            elif r.random() < .6:
                fs.append(QF(it.name))
        return QN(fs or [QF('f0')])
    q = sub('Root', 2)
    registry = CollectorRegistry()
    cls = AsyncGraphMetrics if asynchronous else GraphMetrics
    measured = apply(graph, [cls('the graph', metric=Summary(
        'time', 'time', ['graph', 'node', 'field'], registry=registry))])

    def execute(g):
        if asynchronous:
            return inside(g, q)
        if arg['seed'] % 2:
            with ThreadPoolExecutor(3) as pool:
                return Engine(ThreadsExecutor(pool)).execute(
                    g, q, {'token': 7})
        return Engine(SyncExecutor()).execute(g, q, {'token': 7})
    want = enc(denormalize(graph, execute(graph)))
    # the original graph is not measured, nor is it changed
    if samples(registry):
        return {'calls': [], 'samples': samples(registry), 'failed': False}
    calls.clear()
    got = enc(denormalize(measured, execute(measured)))
    c = {'calls': calls, 'samples': samples(registry), 'failed': False}
    if got != want:
        c['calls'] = []      # something else was executed
    return c


def subgraph(arg):
    """high-level fields on low-level ones; nodes may share a subgraph"""
    r = random.Random(arg['seed'])
    asynchronous = r.random() < .5
    delay = arg.get('delay', 0)
    spent, calls = [], []

    class Counted(SubGraph):
        def __call__(self, fields, ids, *args):
            calls.append({'node': {'a': 'A', 'b': 'B'}[ids[0][0]], 'ms': delay,
                          'fields': [f.name for f, _ in fields]})
            return super().__call__(fields, ids, *args)

    def low(fields, ids):
        return [[f.name + i for f in fields] for i in ids]

    def slow(*args):
        time.sleep(delay / 1000)
        return low(*args)

    async def aslow(*args):
        await asyncio.sleep(delay / 1000)
        return low(*args)
    fn = aslow if asynchronous else slow
    lowg = Graph([Node('X', [Field('x', None, fn), Field('y', None, fn)])])
    sgs = [Counted(lowg, 'X')]
    if r.random() < .5:
        sgs.append(Counted(lowg, 'X'))

    def node(sg):
        return [Field('x', None, sg), Field('y', None, sg.c(S.this.y)),
                Field('z', None, sg.c([S.this.x, S.this.y]))]

    def link(*ids):
        async def aload():
            return list(ids)
        return aload if asynchronous else lambda: list(ids)
    graph = Graph([
        Node('A', node(sgs[0])), Node('B', node(sgs[-1])),
        Root([Link('a', Sequence[TypeRef['A']], link('a1', 'a2'),
                   requires=None),
              Link('b', Sequence[TypeRef['B']], link('b1'), requires=None)])])
    registry = CollectorRegistry()
    cls = AsyncGraphMetrics if asynchronous else GraphMetrics
    measured = apply(graph, [cls('the graph', metric=Summary(
        'time', 'time', ['graph', 'node', 'field'], registry=registry))])
    q = QN([QL(n, QN([QF(f) for f in r.sample(['x', 'y', 'z'],
                                              r.randint(1, 3))]))
            for n in r.choice(['a', 'b', 'ab'])])

    def execute(g):
        if asynchronous:
            return inside(g, q)
        return Engine(SyncExecutor()).execute(g, q)
    want = enc(denormalize(graph, execute(graph)))
    calls.clear()
    got = enc(denormalize(measured, execute(measured)))
    for f in q.fields:
        calls.append({'node': 'Root', 'fields': [f.name], 'ms': 0})
    c = {'calls': calls, 'samples': samples(registry), 'failed': False}
    if got != want:
        c['calls'] = []
    return c


def run(check, recipe=None):
    if recipe is None or cases.wants(recipe, record):
        if recipe is not None:
            args = [recipe['arg']]
        else:
            n = check.n(700, 9000)
            args = ec.mixed(check.seed, n, FLAGS, 'ccaast', base=170000) + \
                ec.mixed(check.seed, n // 2, FLAGS, 'cas', faults=.8,
                         base=180000) + \
                ec.mixed(check.seed, n, dict(FLAGS, two_level=True), 'cas',
                         base=190000)
        got = parallel(check, record, args, 30)
        ec.validate(check, [(a, (c, e)) for a, (c, e, _) in got],
                    'measured ', record)
        cases.decide(check, MODULE, record,
                     [(a, m) for a, (_, _, m) in got if m])
    s = check.seed * 86028121
    for fn, n in ((shared, 600), (subgraph, 300)):
        cases.run(check, recipe, MODULE, fn,
                  [{'seed': s + k} for k in range(check.n(n, n * 10))] +
                  [{'seed': s + k, 'delay': 8}
                   for k in range(check.n(n // 8, n))], count=fn.__name__)
