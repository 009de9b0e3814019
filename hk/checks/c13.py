"""C13: denormalized results."""
import asyncio
import copy
import random

from hiku.denormalize.base import Denormalize
from hiku.denormalize.graphql import DenormalizeGraphQL
from hiku.engine import Engine, pass_context
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.executors.sync import SyncExecutor
from hiku.graph import Field, Graph, Link, Node, Nothing, Option, Root, apply
from hiku.introspection.graphql import (AsyncGraphQLIntrospection,
                                        GraphQLIntrospection)
from hiku.query import Field as QF, Link as QL, Node as QN, merge
from hiku.result import denormalize
from hiku.types import String

from .. import cases, tlc
from ..cases import Keep
from ..enc import enc
from ..qenc import explore
from . import c12
from .c12 import make, pytype, qjson, query, ty, unvt, vt


class Tables:

    def __init__(self, g, seed, asynchronous):
        self.g, self.seed, self.asynchronous = g, seed, asynchronous
        self.f, self.l = {}, {}
        self.log = []       # what is asked of the root, in order
        # how long loaders take
        self.pause = lambda: None
        self.turns = lambda: 0
        # the token which has to be in the context
        self.ctx = None
        self.dts = {d['name']: d['type'] for d in g['dts']}

    def again(self, seed):
        """from now on, there is other data"""
        self.seed, self.f, self.l, self.log = seed, {}, {}, []

    def value(self, node, ident, it, o):
        if it['name'] == 'id':
            return ident
        r = random.Random('%s %s %s %s %s' % (
            self.seed, node, ident, it['name'], enc(o)))
        if not node and self.wide() and it['type']['k'] == 'seq':
            return [make(r, it['type']['a'][0], self.dts, 2)
                    for _ in range(r.choice([40, 70, 130]))]
        return make(r, it['type'], self.dts)

    def wide(self):
        """long lists in the root"""
        return isinstance(self.seed, int) and self.seed % 29 == 0

    def targets(self, node, req, it, o):
        r = random.Random('%s %s %s %s %s' % (self.seed, node, req,
                                              it['name'], enc(o)))
        pool = ['%s%d' % (it['to'], i) for i in range(3)]
        if not node and self.wide() and it['type']['k'] == 'seq':
            pool = ['%s%d' % (it['to'], i) for i in range(r.choice([3, 150]))]
            return [r.choice(pool) for _ in range(r.choice([40, 70, 130]))]
        if it['type']['k'] == 'seq':
            return [r.choice(pool) for _ in range(r.randint(0, 3))]
        if it['type']['k'] == 'opt' and r.random() < .3:
            return []
        return [r.choice(pool)]

    @staticmethod
    def key(o):
        return sorted([k, enc(v)] for k, v in (o or {}).items())

    def fields(self, node, items):
        def load(fields, ids=None):
            if not node:
                self.log.extend(f.name for f in fields)
            rows = []
            for i in ([''] if ids is None else ids):
                row = []
                for f in fields:
                    v = self.value(node, i, items[f.name], f.options)
                    self.f[node, i, f.name, str(self.key(f.options))] = \
                        self.key(f.options), v
                    row.append(v)
                rows.append(row)
            return rows[0] if ids is None else rows
        return self.wrap(load)

    def link(self, node, it):
        def load(*args):
            args = list(args)
            o = args.pop() if it['opts'] else None
            if not node:
                self.log.append(it['name'])
            reqs = args[0] if it['req'] else ['']
            out = []
            for q in reqs:
                x = self.targets(node, q, it, o)
                self.l[node, q, it['name'], str(self.key(o))] = \
                    self.key(o), x
                out.append(x if it['type']['k'] == 'seq' else
                           x[0] if x else Nothing)
            return out if it['req'] else out[0]
        return self.wrap(load)

    def wrap(self, fn):
        if self.ctx:
            @pass_context
            def ctx_load(ctx, *args):
                if ctx['token'] != self.ctx:
                    raise ValueError('the context is another one')
                return fn(*args)
            return ctx_load
        if not self.asynchronous:
            def sync_load(*args):
                self.pause()
                return fn(*args)
            return sync_load

        async def load(*args):
            for _ in range(self.turns()):
                await asyncio.sleep(0)
            return fn(*args)
        return load

    def graph(self):
        nodes = []
        for nd in self.g['nodes']:
            items = {i['name']: i for i in nd['items']}
            load = self.fields(nd['name'], items)
            out = []
            for it in nd['items']:
                opts = [Option(o['name'], pytype(o['type']),
                               **({'default': unvt(o['def'])}
                                  if o['has'] else {}))
                        for o in it['opts']]
                if it['k'] == 'f':
                    out.append(Field(it['name'], pytype(it['type']), load,
                                     options=opts))
                else:
                    out.append(Link(it['name'], pytype(it['type']),
                                    self.link(nd['name'], it),
                                    requires=it['req'] or None,
                                    options=opts))
            nodes.append(Node(nd['name'], out) if nd['name'] else Root(out))
        return Graph(nodes, data_types={n: pytype(t)
                                        for n, t in self.dts.items()})

    def dump(self):
        return {'f': [{'n': n, 'id': i, 'name': x, 'o': o, 'v': vt(v)}
                      for (n, i, x, _), (o, v) in self.f.items()],
                'l': [{'n': n, 'name': x, 'o': o, 'ids': ids,
                       'req': 's:' + q if q else ''}
                      for (n, q, x, _), (o, ids) in self.l.items()]}


def requires(g, r):
    """nodes get identifiers, links require them"""
    g = copy.deepcopy(g)
    for nd in g['nodes']:
        for it in nd['items']:
            it['req'] = 'id' if it['k'] == 'l' and nd['name'] and \
                r.random() < .7 else ''
        if nd['name']:
            nd['items'].append({'k': 'f', 'name': 'id', 'type': ty('str'),
                                'to': '', 'opts': [], 'req': ''})
    return g


def typenames(q, r, p):
    """__typename everywhere"""
    q = copy.deepcopy(q)

    def walk(n):
        for f in n['fields']:
            if f['k'] == 'l':
                walk(f['node'])
        keys = {f['alias'] or f['name'] for f in n['fields']}
        for alias in ['', 't']:
            if r.random() < p and (alias or '__typename') not in keys:
                n['fields'].insert(
                    r.randint(0, len(n['fields'])),
                    {'k': 'f', 'name': '__typename', 'alias': alias,
                     'opts': [], 'node': {'ord': False, 'fields': []}})
    walk(q)
    return q


def nameless(g, node, q, record=False):
    """is __typename asked of a record"""
    items = {} if record else {
        i['name']: i for n in g['nodes'] if n['name'] == node
        for i in n['items']}
    for f in q['fields']:
        if f['name'] == '__typename':
            if record:
                return True
        elif f['k'] == 'l':
            it = items.get(f['name'])
            if nameless(g, it and it['to'], f['node'],
                        record or it['k'] == 'f'):
                return True
    return False


def execute(graph, q, asynchronous):
    if not asynchronous:
        return Engine(SyncExecutor()).execute(graph, q)
    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(
            Engine(AsyncIOExecutor(loop)).execute(graph, q))
    finally:
        loop.close()


def observe(g, q, seed):
    r = random.Random(seed)
    asynchronous = r.random() < .3
    g = requires(g, r)
    out = []
    for intro in (False, True):
        t = Tables(g, seed, asynchronous)
        graph = t.graph()
        root = 'Query'
        qq = q
        if intro:
            cls = AsyncGraphQLIntrospection if asynchronous \
                else GraphQLIntrospection
            graph = apply(graph, [cls(graph)])
            root = r.choice(['Query', 'Mutation'])
            qq = typenames(q, r, .5)
        query_ = query(qq, {} if seed % 2 else None)
        keep = Keep()
        if seed % 3 == 0:
            explore(query_, seed % 4 > 1)
        keep('the query', query_)
        outs = []

        def show(name, fn):
            o = {'name': name, 'err': '', 'v': vt(None)}
            try:
                o['v'] = vt(fn())
            except Exception as e:
                o['err'] = repr(e)[:200]
            outs.append(o)
        try:
            res = execute(graph, query_, asynchronous)
        except Exception as e:
            outs.append({'name': 'execute', 'err': repr(e)[:200],
                         'v': vt(None)})
        else:
            # (records do not know the names of their types)
            if not intro or root == 'Query' and not nameless(g, '', qq):
                show('denormalize', lambda: denormalize(graph, res))
                show('Denormalize',
                     lambda: Denormalize(graph, res).process(query_))
            show('DenormalizeGraphQL', lambda: DenormalizeGraphQL(
                graph, res, root).process(query_))
        out.append(dict(g=g, q=qq, root=root, outs=outs,
                        touched=keep.touched(), **t.dump()))
    return out


def small(arg):
    return observe(arg['g'], arg['q'], arg['seed'])


def rand(arg):
    r = random.Random(arg['seed'])
    x = c12.R(r)
    x.bad = False
    x.deadend = False
    g = x.graph()
    q = qjson(merge([x.sub('', r.randint(1, 4) if arg['seed'] % 29
                           else r.randint(1, 2))]))
    if x.deadend or c12.whole(g, q):
        return []
    gr = Tables(requires(g, r), 0, False).graph()
    from hiku.validate.query import validate
    if validate(gr, query(q)):
        return []       # result names clash
    return observe(g, q, arg['seed'])


def run(check, recipe=None):
    args = []
    if recipe is None:
        res = tlc.run('HikuValidateMC', 'SPECIFICATION VSpec\n'
                      'CHECK_DEADLOCK FALSE\nCONSTANT Two = TRUE\n'
                      'CONSTRAINT ValidOnly\nINVARIANT PartsValid\n')
        check.tlc(res)
        args = [dict(x, seed=check.seed + k)
                for k, x in enumerate(res.tagged('QUERY'))]
    cases.run(check, recipe, 'HikuDenormCases', small, args,
              count='enumerated')
    cases.run(check, recipe, 'HikuDenormCases', rand,
              [{'seed': check.seed * 32452843 + k}
               for k in range(check.n(1200, 20000))])
