"""C18: GraphQL endpoints."""
import asyncio
import copy
import random
import time
from concurrent.futures import ThreadPoolExecutor

from hiku.endpoint.graphql import (AsyncBatchGraphQLEndpoint,
                                   AsyncGraphQLEndpoint, BatchGraphQLEndpoint,
                                   GraphQLEndpoint)
from hiku.engine import Engine
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.executors.sync import SyncExecutor
from hiku.executors.threads import ThreadsExecutor
from hiku.query import merge

from .. import cases
from ..enc import enc, opts as enc_opts
from . import c11, c12, c13
from .c12 import qjson, unvt, vt

MODULE = 'HikuEndpointCases'
CLASSES = {c.__name__: c for c in [
    GraphQLEndpoint, BatchGraphQLEndpoint, AsyncGraphQLEndpoint,
    AsyncBatchGraphQLEndpoint]}


class Writer:
    """a document which means a query"""

    def __init__(self, r, bad):
        self.r, self.bad = r, bad
        self.vars, self.given, self.frags = [], {}, []
        self.vals = {}
        self.n = 0
        self.top = []

    def note(self, v):
        self.vals.setdefault(enc(v), v)

    def value(self, v, top=True):
        r = self.r
        if r.random() < .25:
            self.n += 1
            name = 'v%d' % self.n
            has = r.random() < .5
            given = not has or r.random() < .5
            other = r.choice([None, 0, 2.5, [1]])
            self.note(other)
            if top:
                self.top.append((name, has))
            self.vars.append({
                'name': name, 'has': has, 'type': 'T',
                'nonnull': not has and v is not None and r.random() < .5,
                'def': self.literal(v if not given else other) if has else
                c11.X(None, 'null')})
            if given:
                self.given[name] = v
            if top and self.bad and r.random() < .1:
                self.given.pop(name, None)
            if top and self.bad and r.random() < .1:
                self.vars.pop()
            return {'t': 'var', 's': name, 'kk': [], 'c': [],
                    'text': '$' + name}
        if isinstance(v, list):
            return {'t': 'l', 's': '', 'kk': [], 'text': None,
                    'c': [self.value(i, False) for i in v]}
        if isinstance(v, dict):
            ks = sorted(v)
            return {'t': 'd', 's': '', 'kk': ks, 'text': None,
                    'c': [self.value(v[k], False) for k in ks]}
        return self.literal(v)

    def literal(self, v):
        if isinstance(v, list):
            return {'t': 'l', 's': '', 'kk': [], 'text': None,
                    'c': [self.literal(i) for i in v]}
        if isinstance(v, dict):
            ks = sorted(v)
            return {'t': 'd', 's': '', 'kk': ks, 'text': None,
                    'c': [self.literal(v[k]) for k in ks]}
        if v is None or isinstance(v, bool):
            return c11.X(v, {None: 'null', True: 'true', False: 'false'}[v])
        if isinstance(v, str):
            return c11.X(v, c11.string(self.r, v))
        return c11.X(v, repr(v))

    def dirs(self):
        r = self.r
        if r.random() > .1:
            return []
        name = r.choice(['skip', 'include'])
        v = name == 'include'
        return [{'name': name, 'args': [
            ['if', c11.X(v, 'true' if v else 'false')]]}]

    def field(self, f, sel):
        args = []
        for name, _, v in f['opts']:
            v = unvt(v)
            self.note(v)
            args.append([name, self.value(v)])
        self.r.shuffle(args)
        return {'k': 'field', 'name': f['name'], 'alias': f['alias'],
                'args': args, 'leaf': sel is None, 'sel': sel or [],
                'dirs': self.dirs()}

    def sel(self, q):
        r = self.r
        out = []
        for f in q['fields']:
            if f['k'] == 'l':
                fs = f['node']['fields']
                if len(fs) > 1 and r.random() < .15:
                    # one selection in two parts
                    k = r.randrange(1, len(fs))
                    for part in (fs[:k], fs[k:]):
                        out.append(self.field(f, self.sel(
                            {'fields': part})))
                    continue
                out.append(self.field(f, self.sel(f['node'])))
            else:
                out.append(self.field(f, None))
        if r.random() < .2 or not out:
            out.insert(r.randint(0, len(out)), self.field(
                {'name': '__typename', 'alias': '', 'opts': []}, None))
        if r.random() < .1:
            out.insert(r.randint(0, len(out)), self.field(
                {'name': '__typename', 'alias': 'tn', 'opts': []}, None))
        if self.bad and r.random() < .06:
            # __typename which is not what it should be
            taken = [f['alias'] or f['name'] for f in q['fields']]
            kind = r.choice(['clash', 'node', 'opts']) if taken else 'node'
            x = self.field(
                {'name': '__typename',
                 'alias': r.choice(taken) if kind == 'clash' else '',
                 'opts': [['x', enc(1), vt(1)]] if kind == 'opts' else []},
                [self.field({'name': 'x', 'alias': '', 'opts': []}, None)]
                if kind == 'node' else None)
            out.insert(r.randint(0, len(out)), x)
        if r.random() < .1:
            x = self.field({'name': 'zz', 'alias': '', 'opts': []}, None)
            x['dirs'] = [{'name': 'skip', 'args': [
                ['if', c11.X(True, 'true')]]}]
            out.append(x)
        # parts of it in fragments
        if out and r.random() < .2:
            k = r.randrange(len(out))
            part, out = out[k:], out[:k]
            x = {'name': '', 'alias': '', 'args': [], 'leaf': True,
                 'sel': [], 'dirs': self.dirs()}
            if r.random() < .5:
                name = 'F%d' % len(self.frags)
                self.frags.append({'name': name, 'sel': part})
                if self.bad and r.random() < .05:
                    self.frags.pop()
                out.append(dict(x, k='spread', name=name))
            else:
                out.append(dict(x, k='inline', sel=part))
        return out


def distinct(q):
    names = [f['alias'] or f['name'] for f in q['fields']]
    return len(set(names)) == len(names) and all(
        distinct(f['node']) for f in q['fields'] if f['k'] == 'l')


def request(r, x, g, hasmut):
    """(request of the specification, data for dispatch) or None"""
    x.bad = r.random() < .2
    x.g = g
    for _ in range(10):
        x.deadend = False
        q = qjson(merge([x.sub('', r.randint(1, 3))]))
        if not x.deadend and not c12.whole(g, q) and \
                (x.bad or distinct(q)):
            break
    else:
        return None
    if r.random() < .15:
        # only __typename somewhere
        links = [f for f in q['fields'] if f['k'] == 'l']
        if links:
            r.choice(links)['node']['fields'] = []
        elif r.random() < .3:
            q['fields'] = []
    w = Writer(r, r.random() < .15)
    sel = w.sel(q)
    kind = r.choice(['query', 'mutation']) \
        if hasmut or r.random() < .05 else 'query'
    if r.random() < .03:
        kind = 'subscription'
    name = r.choice(['', '', 'Foo'])
    ops = [{'kind': kind, 'name': name, 'vars': w.vars, 'sel': sel}]
    opname = name if r.random() < .5 else ''
    if name and r.random() < .3:
        ops.append({'kind': r.choice(['query', 'mutation']), 'name': 'Bar',
                    'vars': [], 'sel': [w.field(
                        {'name': 'f0', 'alias': '', 'opts': []}, None)]})
        if r.random() < .8:
            opname = name
    if r.random() < .04:
        opname = 'Nope'
    doc = {'ops': ops, 'frags': w.frags}
    text = c11.Printer(r).doc(doc)
    syntax = r.random() < .04
    if syntax:
        text = r.choice([text + ' }', '{', 'query {', '', '{ a(', text + '"'])
    w.note(None)
    given = dict(w.given)
    data = {'query': text}
    if syntax and r.random() < .3:
        # no text at all
        data = r.choice([{}, {'query': None}, {'query': 1}])
    if given or r.random() < .3:
        data['variables'] = given or r.choice([{}, None])
    if opname or r.random() < .3:
        data['operationName'] = opname or None
    return ({'syntax': syntax, 'doc': c11.strip(doc), 'opname': opname,
             'vars': enc_opts(given)}, data, w.vals, w.top)


def near(r, v):
    if r.random() < .2:
        return r.choice([None, 0, 2.5, [1]])
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, float)):
        return v + 1
    if isinstance(v, str):
        return v + 'q'
    if isinstance(v, list):
        return v[:-1]
    return v


def again(r, req, data, vals, top):
    """the same document requested again"""
    data = copy.deepcopy(data)
    given = dict(data.get('variables') or {})
    vals = dict(vals)
    for name, has in top:
        x = r.random()
        if has and x < .3:
            given.pop(name, None)
        elif x < .7:
            given[name] = near(r, given.get(name, 1))
            vals.setdefault(enc(given[name]), given[name])
    if given or 'variables' in data:
        data['variables'] = given
    return dict(req, vars=enc_opts(given)), data, vals, top


EMPTY = {'kind': 'raised', 'v': vt(None), 'errs': [], 'order': [],
         'ordered': False}


def response(x):
    if isinstance(x, Exception):
        return dict(EMPTY, errs=[repr(x)[:200]])
    if isinstance(x, dict) and set(x) == {'data'}:
        return dict(EMPTY, kind='data', v=vt(x['data']))
    if isinstance(x, dict) and set(x) == {'errors'} and \
            all(set(e) == {'message'} and isinstance(e['message'], str)
                for e in x['errors']):
        return dict(EMPTY, kind='errors',
                    errs=[e['message'][:100] for e in x['errors']])
    return dict(EMPTY, errs=['not a response: %r' % (x,)])


def rand(arg):
    r = random.Random(arg['seed'])
    x = c12.R(r)
    x.bad = False
    g = c13.requires(x.graph(), r)
    mg = copy.deepcopy(g)
    hasmut = r.random() < .7
    if r.random() < .5:
        # the same names in both
        mg['nodes'][0]['items'] = [i for i in mg['nodes'][0]['items']
                                   if i['name'] in ('f0', 'c0', 'l0')]
    asynchronous = r.random() < .5
    qt = c13.Tables(g, arg['seed'], asynchronous)
    mt = c13.Tables(mg, str(arg['seed']) + 'm', asynchronous)
    batch = r.random() < .6
    reqs, calls, vals, past = [], [], {}, []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        datas = []
        for _ in range(r.randint(1, 4) if batch else 1):
            if past and r.random() < .4:
                got = again(r, *r.choice(past))
            else:
                got = request(r, x, g if r.random() < .7 else mg, hasmut)
                if got is None:
                    continue
            past.append(got)
            reqs.append(got[0])
            datas.append(got[1])
            vals.update(got[2])
        if datas:
            single = not batch or (len(datas) == 1 and r.random() < .5)
            calls.append(datas[0] if single else datas)
    if not reqs:
        return []
    mut = mt.graph() if hasmut else None
    sent = copy.deepcopy(calls)
    name = ('Async' if asynchronous else '') + \
        ('Batch' if batch else '') + 'GraphQLEndpoint'
    concurrent = asynchronous and r.random() < .5
    rounds = r.choice([1, 1, 2])
    dumps = []

    def over():
        dumps.append({'query': dict(g=g, log=qt.log, **qt.dump()),
                      'mutation': dict(g=mg, log=mt.log, **mt.dump())})
        # the same requests when the data is other
        qt.again('%s again' % arg['seed'])
        mt.again('%s m again' % arg['seed'])
    if asynchronous:
        if r.random() < .5:
            qt.turns = mt.turns = lambda: r.choice([0, 0, 1, 2, 5])

        async def go():
            endpoint = CLASSES[name](Engine(AsyncIOExecutor()), qt.graph(),
                                     mut)

            async def one(data):
                at = len(qt.log), len(mt.log)
                try:
                    out = await asyncio.wait_for(endpoint.dispatch(data), 20)
                except Exception as e:
                    out = e
                return out, qt.log[at[0]:] + mt.log[at[1]:]
            out = []
            for _ in range(rounds):
                out.append(await asyncio.gather(*[one(d) for d in calls])
                           if concurrent else [await one(d) for d in calls])
                over()
            return out
        got = asyncio.run(go())
    else:
        executor = r.choice([SyncExecutor, lambda: ThreadsExecutor(
            ThreadPoolExecutor(2))])()
        endpoint = CLASSES[name](Engine(executor), qt.graph(), mut)

        def one(data):
            at = len(qt.log), len(mt.log)
            try:
                out = endpoint.dispatch(data)
            except Exception as e:
                out = e
            return out, qt.log[at[0]:] + mt.log[at[1]:]
        concurrent = r.random() < .4
        if concurrent:
            qt.pause = mt.pause = lambda: time.sleep(.0003)
        got = []
        for _ in range(rounds):
            if concurrent:
                with ThreadPoolExecutor(4) as pool:
                    got.append(list(pool.map(one, calls)))
            else:
                got.append([one(d) for d in calls])
            over()
    vals = [{'s': s, 'v': vt(v)} for s, v in vals.items()]
    return [dict(dump, hasmut=hasmut, reqs=reqs, vals=vals,
                 outs=answers(calls, sent, x, concurrent))
            for dump, x in zip(dumps, got)]


def answers(calls, sent, got, concurrent):
    outs = []
    for data, (out, log) in zip(calls, got):
        if isinstance(data, list):
            if isinstance(out, Exception):
                out = [out] * len(data)
            for n in range(max(len(data), len(out))):
                o = response(out[n]) if n < len(out) else EMPTY
                outs.append(o)
        else:
            outs.append(dict(response(out), ordered=not concurrent,
                             order=[] if concurrent else log))
    if calls != sent:
        outs[0] = response(ValueError('the request was changed'))
    return outs


def run(check, recipe=None):
    cases.run(check, recipe, MODULE, rand,
              [{'seed': check.seed * 67867967 + k}
               for k in range(check.n(3000, 40000))])
