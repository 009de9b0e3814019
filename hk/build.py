"""Scenario -> real Hiku graph and query, with recording loaders."""
import asyncio
import contextvars
import threading
from collections import UserList
from concurrent import futures
from functools import partial
from zlib import crc32

from hiku import query as hq
from hiku.graph import Graph, Node, Root, Field, Link, Option, Nothing, apply
from hiku.types import (Any, Boolean, Integer, Float, String, Optional,
                        Sequence, Record, TypeRef)
from hiku.engine import pass_context
from hiku.sources.graph import SubGraph
from hiku.expr.core import define, S, each, if_, if_some

from .enc import enc, val, opts as enc_opts, Raw
from .gen import Data


# trace of an execution which runs beside the one of interest
OTHER = contextvars.ContextVar('other', default=None)


def boom(k, asynchronous=True):
    """failures of loaders are exceptions of any class"""
    kinds = [Boom, KeyError, TypeError, ValueError, AttributeError, IndexError,
             AssertionError, RuntimeError, TimeoutError, OSError, LookupError,
             futures.CancelledError, NotImplementedError, UnicodeError]
    if not asynchronous:
        kinds += [StopIteration]      # (coroutines can not raise it)
    return kinds[k % len(kinds)]('boom %d' % k)


class Boom(Exception):
    pass


class Holder:

    def __init__(self, func):
        self.func = func

    def load(self, *args, **kwargs):
        return self.func(*args, **kwargs)


class CtxHolder(Holder):

    @pass_context
    def load(self, *args, **kwargs):
        return self.func(*args, **kwargs)


class Trace:
    """Events of one execution.  Thread safe."""

    def __init__(self, case=None):
        self.events = []
        self.lock = threading.RLock()
        self.cid = 0
        self.case = case
        self.booms = []
        self.ctx = None
        self.fault = 0
        self.alone = False
        self.kept = []

    def keep(self, what, obj):
        """an object of the user, which has to stay as it is"""
        self.kept.append((what, obj, repr(obj)))

    def touched(self):
        return sorted({what for what, obj, was in self.kept
                       if repr(obj) != was})

    def add(self, **ev):
        with self.lock:
            self.events.append(ev)

    def call(self, **ev):
        with self.lock:
            self.cid += 1
            cid = self.cid
            self.events.append(dict(e='call', cid=cid, **ev))
            return cid


def shape(x):
    if isinstance(x, (list, tuple)):
        return {'seq': True, 'lens': [len(i) if isinstance(i, (list, tuple))
                                      else -1 for i in x]}
    return {'seq': False, 'lens': []}


class Callable:
    def __init__(self, func):
        self.func = func

    def __call__(self, *args, **kwargs):
        return self.func(*args, **kwargs)


class Loaders:
    """Creates loader functions for the items of a scenario"""

    def __init__(self, scn, trace, ctx, faults=None, mode='sync', hold=None):
        self.scn = scn
        self.data = Data(scn)
        self.main = trace
        self.ctx = ctx
        self.faults = dict(faults or {})
        self.mode = mode      # sync | async
        self.hold = hold      # hold(cid, outcome) for the controlled executor
        self.ncalls = 0
        self.gate = None      # async gate
        self.cleanup = lambda cid: ('cancel', 0)
        self.cache = {}
        self.funcs = {}
        self.memo = {} if scn.get('aliased') else None

    @property
    def trace(self):
        return OTHER.get() or self.main

    def ctx_of(self, ctx, got):
        if not got:
            return 'none'
        want = self.ctx if self.trace.ctx is None else self.trace.ctx
        try:
            ok = dict(ctx) == want and len(ctx) == len(want) and \
                all(ctx[k] == want[k] for k in want)
            try:
                ctx['no-such-key']
                ok = False
            except KeyError:
                pass
        except Exception:
            ok = False
        return 'ok' if ok else 'bad'

    def fault(self):
        t = OTHER.get()
        if t:
            with t.lock:
                return 'raise' if t.cid == t.fault else None
        with self.trace.lock:
            self.ncalls += 1
            return self.faults.get(self.ncalls)

    # -- loader protocols ----------------------------------------------------
    def fields_fn(self, gi, node, fn, items, ctx):
        key = (gi, fn)
        if key in self.cache:
            return self.cache[key]()
        by_name = {i['name']: i for i in items}
        root = node == ''

        def body(args, kwargs):
            args = list(args)
            c = self.ctx_of(args.pop(0), True) if ctx else 'none'
            fields = args.pop(0)
            hasids = bool(args)
            ids = list(args.pop(0)) if args else []
            extra = bool(args) or bool(kwargs)
            its = [{'name': f.name, 'opts': enc_opts(f.options)}
                   for f in fields]
            cid = self.trace.call(
                fn=fn, k='f', items=its, hasids=hasids,
                ids=[enc(i) for i in ids], req='none', reqs=[],
                hasopts=False, opts=[], ctx='bad' if extra else c)
            flt = self.fault()

            def row(i):
                return [self.data.field(gi, node, i, by_name[f.name], f.options)
                        for f in fields]
            try:
                res = row('') if not hasids else [row(i) for i in ids]
            except Exception:
                res = Boom('unexpected request')
            rows = ([res] if not hasids else res)
            return self.finish(cid, fn, flt, res, 'f', not hasids, rows)
        return self.wrap(key, fn, body, ctx)

    def link_fn(self, gi, node, fn, item, ctx):
        key = (gi, fn)
        if key in self.cache:
            return self.cache[key]()
        root = node == ''

        def body(args, kwargs):
            args = list(args)
            c = self.ctx_of(args.pop(0), True) if ctx and args else 'none'
            req, reqs = 'none', []
            if item['req'] and args:
                x = args.pop(0)
                if root:
                    req, reqs = 'one', [x]
                else:
                    req, reqs = 'many', list(x) if isinstance(
                        x, (list, tuple)) else [x]
            hasopts, o = False, {}
            if args:
                hasopts, o = True, args.pop(0)
            bad = bool(args) or bool(kwargs) or \
                not (isinstance(o, dict) or o == {})
            cid = self.trace.call(
                fn=fn, k='l', items=[], hasids=False, ids=[], req=req,
                reqs=[enc(r) for r in reqs], hasopts=hasopts,
                opts=enc_opts(o) if not bad else [],
                ctx='bad' if bad else c)
            flt = self.fault()

            def one(r):
                ids = self.data.link(gi, node, item,
                                     enc(r) if item['req'] else '', o)
                if item['ty'] == 'many':
                    return list(ids)
                return ids[0] if ids else Nothing
            try:
                res = ([one(r) for r in reqs] if req == 'many'
                       else one(reqs[0] if reqs else None))
            except Exception:
                res = Boom('unexpected request')
            if req != 'many' and item['ty'] != 'one' and flt in (
                    'nothing', 'drop', 'extra', 'empty'):
                flt = 'raise'     # results have to stay consistent
            if req == 'many' and item['ty'] == 'many' and flt in (
                    'longrow', 'shortrow'):
                flt = 'raise'
            if req != 'many' and item['ty'] != 'many' and flt in (
                    'notseq', 'none'):
                flt = 'raise'     # would be just another object
            return self.finish(cid, fn, flt, res, 'l', req != 'many',
                               item['ty'])
        return self.wrap(key, fn, body, ctx)

    def wrap(self, key, fn, body, ctx):
        if self.mode == 'async':
            async def loader(*args, **kwargs):
                cid, out, ret = body(args, kwargs)
                if self.gate is not None and not self.trace.alone:
                    try:
                        await self.gate(cid, fn)
                    except asyncio.CancelledError:
                        # cleanup of a cancelled loader takes its time
                        kind, ticks = self.cleanup(cid)
                        if isinstance(ticks, asyncio.Future):
                            while not ticks.done():
                                try:
                                    await asyncio.shield(ticks)
                                except asyncio.CancelledError:
                                    pass
                            ticks = 0
                        for _ in range(ticks):
                            await asyncio.sleep(0)
                        self.trace.add(e='gone', cid=cid)
                        if kind == 'raise':
                            raise Boom('cleanup')
                        if kind == 'return':
                            return self.deliver(out)
                        raise
                self.trace.add(**ret)
                return self.deliver(out)
        else:
            def loader(*args, **kwargs):
                cid, out, ret = body(args, kwargs)
                if self.hold is not None:
                    return self.hold(cid, fn, out, ret)
                self.trace.add(**ret)
                return self.deliver(out)
        loader.__name__ = fn
        kind = crc32(('%s %s' % (fn, self.scn.get('seed'))).encode()) % 5 \
            if self.scn.get('callables') else 0
        if kind == 1:
            loader = partial(loader)
        elif kind == 2:
            loader = Callable(loader)
        elif kind >= 3:
            # new methods, which are equal
            holder = (CtxHolder if ctx else Holder)(loader)
            self.cache[key] = lambda: holder.load
            return holder.load
        if ctx:
            loader = pass_context(loader)
        self.cache[key] = lambda: loader
        return loader

    @staticmethod
    def deliver(out):
        if isinstance(out, Exception):
            raise out
        return out

    # -- faults --------------------------------------------------------------
    def finish(self, cid, fn, flt, res, kind, single, extra):
        """apply a fault to a loader result; build the 'ret' event"""
        if isinstance(res, Exception):
            flt = 'raise'
        if flt and flt != 'raise':
            res = distort(flt, res, kind, single,
                          extra if kind == 'l' else '',
                          sum(map(ord, fn)) + cid)
        if flt == 'raise':
            exc = res if isinstance(res, Exception) else boom(
                sum(map(ord, fn)) + cid, self.mode == 'async')
            self.trace.booms.append(exc)
            return cid, exc, dict(e='ret', cid=cid, out='raise', seq=False,
                                  lens=[], rows=[], vals=[])
        sh = shape(res)
        vals, rows = [], []
        if kind == 'f':
            if sh['seq'] and single:
                rows = [[val(x) for x in res]]
            elif sh['seq'] and -1 not in sh['lens']:
                rows = [[val(x) for x in r] for r in res]
        else:
            ty = extra
            src = [res] if single else (res if sh['seq'] else [])
            for x in src:
                if ty == 'many':
                    vals.append([enc(i) for i in x] if
                                isinstance(x, (list, tuple)) else [])
                else:
                    vals.append([] if x is Nothing else [enc(x)])
        ret = dict(e='ret', cid=cid, out='value', seq=sh['seq'],
                   lens=sh['lens'], rows=rows, vals=vals)
        if not flt and self.scn.get('forms'):
            res = reform(res, single, kind, fn)
        self.main.keep('the result of ' + fn, res)
        return cid, res, ret


def reform(res, single, kind, fn):
    """the same as another sequence (always of one kind for a loader)"""
    if not isinstance(res, list):
        return res
    k = sum(map(ord, fn)) % 7
    inner = [list, tuple, UserList][k % 3]
    res = [inner(x) if isinstance(x, list) and not single else x for x in res]
    if k < 2:
        return (x for x in res)
    return [list, tuple, UserList][k % 3](res)


FAULTS = ['raise', 'raise', 'drop', 'extra', 'shortrow', 'longrow', 'notseq',
          'rownotseq', 'nothing', 'none', 'tuple', 'empty']


def distort(flt, res, kind, single, ty, bad=0):
    """a malformed (or unusual) variant of a loader result; may be legal"""
    if flt == 'none':
        return None
    if flt == 'notseq':
        return 7
    if flt == 'nothing':
        if kind == 'l' and (ty == 'one' or single):
            if single:
                return Nothing if ty != 'many' else 7
            if isinstance(res, list) and res:
                k = bad % len(res)
                return res[:k] + [Nothing] + res[k + 1:]
        return res
    if not isinstance(res, list):
        return res
    if flt == 'drop':
        return res[:-1]
    if flt == 'extra':
        return res + [res[0] if res else 0]
    if flt == 'empty':
        return []
    if flt == 'tuple':
        return tuple(res)
    if flt in ('shortrow', 'longrow', 'rownotseq') and res \
            and isinstance(res[-1], list) and not single:
        k = bad % len(res)
        if not isinstance(res[k], list):
            return res
        row = (res[k][:-1] if flt == 'shortrow' else
               res[k] + [0] if flt == 'longrow' else 5)
        return res[:k] + [row] + res[k + 1:]
    return res


# --------------------------------------------------------------------------

def item_type(it):
    vk, dt = it['vk'], it['dt']
    if vk == 'rec':
        return TypeRef[dt]
    if vk == 'optrec':
        return Optional[TypeRef[dt]]
    if vk == 'listrec':
        return Sequence[TypeRef[dt]]
    if vk == 'list':
        return Sequence[String]
    if vk == 'key':
        return Integer
    return None


def link_type(it):
    t = TypeRef[it['to']]
    return {'one': t, 'maybe': Optional[t], 'many': Sequence[t]}[it['ty']]


def mkopts(os, memo=None):
    return shared(memo, ('opts', [(o['name'], o['has'], o['py']) for o in os]), [
        Option(o['name'], None, **({'default': o['py']} if o['has'] else {}))
        for o in os])


def data_types(scn):
    out = {}
    for name, fields in scn.get('dts', {}).items():
        out[name] = Record[[(n, item_type({'vk': vk, 'dt': sub}) or Any)
                            for n, vk, sub in fields]]
    return out


def mkgraph(scn, ld, gi, sgs):
    g = scn['graphs'][gi - 1]
    nodes = []
    by_fn = {}
    for nd in g['nodes']:
        for it in nd['items']:
            if it['k'] == 'f' and not it['sub']:
                by_fn.setdefault(it['fn'], []).append(it)
    for nd in g['nodes']:
        out = []
        for it in nd['items']:
            if it['k'] == 'f':
                if it['sub']:
                    sg = sgs[it['sub'] - 1]
                    e = it['expr']
                    if e['op'] == 'get' and e['a'][0]['op'] == 'sym' and \
                            e['a'][0]['s'] == 'this' and e['s'] == it['name'] \
                            and not it['opts']:
                        func = sg
                    else:
                        func = sg.c(mkexpr(scn, e))
                else:
                    func = ld.fields_fn(gi, nd['name'], it['fn'],
                                        by_fn[it['fn']], it['ctx'])
                out.append(Field(it['name'], item_type(it), func,
                                 options=mkopts(it['opts'], ld.memo)))
            else:
                func = ld.link_fn(gi, nd['name'], it['fn'], it, it['ctx'])
                out.append(Link(it['name'], link_type(it), func,
                                requires=it['req'] or None,
                                options=mkopts(it['opts'], ld.memo)))
        nodes.append(Root(out) if nd['name'] == '' else Node(nd['name'], out))
    return Graph(nodes[1:] + nodes[:1], data_types=data_types(scn))


def mkgraphs(scn, ld):
    """the graph queries are executed on"""
    sgs = []
    if scn['sgs']:
        low = mkgraph(scn, ld, 2, [])
        sgs = [SubGraph(low, s['node']) for s in scn['sgs']]
        if scn.get('metrics'):
            sgs = [Counted(low, s['node']) for s in scn['sgs']]
            ld.trace.sgs = sgs
    graph = mkgraph(scn, ld, 1, sgs)
    if scn.get('metrics'):
        from prometheus_client import CollectorRegistry, Summary
        from hiku.telemetry.prometheus import AsyncGraphMetrics, GraphMetrics
        cls = AsyncGraphMetrics if ld.mode == 'async' else GraphMetrics
        ld.trace.registry = CollectorRegistry()
        graph = apply(graph, [cls('the graph', metric=Summary(
            'time', 'time', ['graph', 'node', 'field'],
            registry=ld.trace.registry))])
    return graph


class Counted(SubGraph):
    """remembers it's calls"""

    def __init__(self, *args):
        super().__init__(*args)
        self.calls = []

    def __call__(self, fields, *args):
        self.calls.append([gf.name for gf, _ in fields])
        return super().__call__(fields, *args)


def mkquery(q, memo=None):
    """memo: equal parts of queries are the same objects"""
    return shared(memo, ('node', q), hq.Node(
        [mkitem(f, memo) for f in q['fields']], ordered=q['ord']))


def mkitem(f, memo=None):
    o = f['py']
    if memo is not None and o is not None:
        o = shared(memo, ('options', o), o)
    alias = f['alias'] or None
    if f['k'] == 'f':
        return shared(memo, ('item', f), hq.Field(f['name'], o, alias))
    return shared(memo, ('item', f), hq.Link(
        f['name'], mkquery(f['node'], memo), o, alias))


def shared(memo, key, x):
    return x if memo is None else memo.setdefault(repr(key), x)


# -- expressions -------------------------------------------------------------

def render(v, tree):
    if not tree:
        return enc(v)
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(render(i, tree) for i in v) + ']'
    if v is None:
        return 'null'
    return '{' + ','.join(t['name'] + '=' + render(v[t['name']], t['sub'])
                          for t in tree) + '}'


def tree_type(tree):
    out = []
    for t in tree:
        if not t['sub']:
            ty = Any
        else:
            ty = tree_type(t['sub'])
            if t.get('many'):
                ty = Sequence[ty]
        out.append((t['name'], ty))
    return Record[out]


def mkfn(scn, e):
    name, reqs = e['s'], e['r']

    def body(*args):
        return Raw('%s(%s)' % (name, ';'.join(render(a, t) for a, t
                                              in zip(args, reqs))))
    body.__name__ = name
    types = []
    for r, many in zip(reqs, e['m']):
        if not r:
            types.append(Any)
        else:
            types.append(Sequence[tree_type(r)] if many else tree_type(r))
    return define(*types)(body)


def mkexpr(scn, e):
    op, a = e['op'], e['a']
    sub = [lambda i=i: mkexpr(scn, a[i]) for i in range(len(a))]
    if op == 'sym':
        return getattr(S, e['s'])
    if op == 'get':
        return getattr(sub[0](), e['s'])
    if op == 'lit':
        return scn['lits'].get(e['s'])
    if op == 'list':
        return [s() for s in sub]
    if op == 'dict':
        return {k: s() for k, s in zip(e['p'], sub)}
    if op == 'if':
        return if_(*[s() for s in sub])
    if op == 'ifsome':
        return if_some([getattr(S, e['s']), sub[0]()], sub[1](), sub[2]())
    if op == 'each':
        return each(getattr(S, e['s']), sub[0](), sub[1]())
    if op == 'call':
        return mkfn(scn, e)(*[s() for s in sub])
    raise ValueError(op)
