"""C23: expressions are checked against the low-level graph."""
import random

from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.expr.core import S, define, each, if_, if_some
from hiku.graph import Field, Graph, Link, Node, Nothing, Option, Root
from hiku.query import Field as QF, Link as QL, Node as QN
from hiku.result import Proxy
from hiku.sources.graph import SubGraph
from hiku.types import (Any, Boolean, Float, Integer, Mapping, Optional,
                        Record, Sequence, String, TypeRef)

from .. import cases, tlc
from ..cases import Keep, shared
from ..enc import Raw, enc, val
from ..gen import ex, lit

MODULE = 'HikuExprTypesCases'

# -- types ---------------------------------------------------------------------


def ty(k, *a, n=(), s=''):
    return {'k': k, 'a': list(a), 'n': list(n), 's': s}


SCALAR = {'any': Any, 'int': Integer, 'str': String, 'bool': Boolean,
          'float': Float}


def pytype(t):
    k, a = t['k'], [pytype(x) for x in t['a']]
    if k in SCALAR:
        return SCALAR[k]
    if k == 'opt':
        return Optional[a[0]]
    if k == 'seq':
        return Sequence[a[0]]
    if k == 'map':
        return Mapping[a[0], a[1]]
    if k == 'rec':
        return Record[list(zip(t['n'], a))]
    return TypeRef[t['s']]


# -- values ----------------------------------------------------------------------

def show(v):
    if isinstance(v, Proxy):
        return '#'
    if isinstance(v, list):
        return '[' + ','.join(show(i) for i in v) + ']'
    if isinstance(v, dict):
        return '{' + ','.join('%s=%s' % (k, show(v[k]))
                              for k in sorted(v)) + '}'
    return enc(v)


def shown(v, t):
    """what a function sees of its argument"""
    if v is None:
        return 'null'
    if t['k'] == 'opt':
        return shown(v, t['a'][0])
    if t['k'] == 'seq':
        return '[' + ','.join(shown(i, t['a'][0]) for i in v) + ']'
    if t['k'] == 'rec':
        return '{' + ','.join('%s=%s' % (n, shown(v[n], x))
                              for n, x in zip(t['n'], t['a'])) + '}'
    return show(v)


# -- expressions --------------------------------------------------------------------

def mkexpr(e, lits, memo=None):
    """memo: equal expressions are the same object"""
    return shared(memo, e, build(e, lits, memo))


def build(e, lits, memo):
    a = [mkexpr(x, lits, memo) for x in e['a']]
    op, s = e['op'], e['s']
    if op == 'sym':
        return getattr(S, s)
    if op == 'get':
        return getattr(a[0], s)
    if op == 'lit':
        return lits[s]
    if op == 'list':
        return a
    if op == 'dict':
        return dict(zip(e['p'], a))
    if op == 'if':
        return if_(*a)
    if op == 'ifsome':
        return if_some([getattr(S, s), a[0]], a[1], a[2])
    if op == 'each':
        return each(getattr(S, s), a[0], a[1])

    def body(*args):
        return Raw('%s(%s)' % (s, ';'.join(
            shown(v, t) for v, t in zip(args, e['ty']))))
    body.__name__ = s
    types = [pytype(t) for t in e['ty']]
    # the other notation of parameters, for what it can tell
    short = [notation(t) for t in e['ty']]
    if None not in short and sum(map(ord, s)) % 2:
        types = ['[%s]' % ' '.join(short)]
    return define(*types)(body)(*a)


def notation(t, top=True):
    if t['k'] == 'any':
        return 'nil' if top else ''
    if t['k'] != 'rec':
        return None
    out = []
    for n, x in zip(t['n'], t['a']):
        x = notation(x, False)
        if x is None:
            return None
        out.append('{:%s %s}' % (n, x) if x else ':%s' % n)
    return '[%s]' % ' '.join(out)


def call(s, a, types):
    e = ex('call', s, a=a)
    e['ty'] = types
    return e


def full(e):
    """all expressions have the same fields"""
    out = dict(e, a=[full(x) for x in e['a']])
    out.setdefault('ty', [])
    return out


# -- construction and execution --------------------------------------------------------

def observe(c, lits, direct=False):
    """c: ts, node, opts, e, items, data, ids; the rest is observed"""
    c = dict(c, e=full(c['e']), accepted=True, ran=True, err='', values=[],
             loaded=[], data=[])
    items, table = c.pop('items'), c.pop('table')
    loaded = []

    def load(node):
        def fields(fs, ids=None):
            loaded.extend([node, f.name] for f in fs)
            if ids is None:
                return [table[node, '', f.name] for f in fs]
            return [[table[node, i, f.name] for f in fs] for i in ids]
        return fields

    def follow(node, name):
        def link(*reqs):
            loaded.append([node, name])
            if node == '':
                return table[node, '', name]
            return [table[node, i, name] for i in reqs[0]]
        return link
    nodes = []
    for node, its in items.items():
        members = [Field('_id', None, lambda fs, ids=None:
                         [[i for _ in fs] for i in ids])]
        for name, t, link in its:
            if link:
                members.append(Link(name, pytype(t), follow(node, name),
                                    requires='_id' if node else None))
            else:
                members.append(Field(name, pytype(t) if t['k'] != 'any'
                                     else None, load(node)))
        nodes.append(Node(node, members) if node else Root(members[1:]))
        for (n, i, f), v in table.items():
            if n == node:
                t, link = next((t, x) for m, t, x in its if m == f)
                if link:
                    v = refs(t, v)
                else:
                    v = val(v)
                c['data'].append({'n': n, 'id': enc(i) if n else '', 'f': f,
                                  'v': v})
    ids, c['ids'] = c['ids'], [enc(i) for i in c['ids']]
    opts, c['opts'] = c['opts'], [
        {'name': o['name'], 'type': o['type'], 'v': val(o['py'])}
        for o in c['opts']]
    low = Graph(nodes, data_types={x['name']: pytype(x['type'])
                                   for x in c['ts']
                                   if x['name'] and not x['node']})
    sg = SubGraph(low, c['node'])
    keep = Keep()
    keep('the data', [table, ids, [o['py'] for o in opts]])
    try:
        expr = mkexpr(c['e'], lits, {} if len(repr(c['e'])) % 2 else None)
        keep('the expression', expr)
        name = c['e']['s'] if direct else 'e'
        graph = Graph([
            Node('H', [Field(name, None, sg if direct else sg.c(expr),
                             options=[Option(o['name'], pytype(o['type'])
                                             if o['type']['k'] != 'any'
                                             else None)
                                      for o in opts])]),
            Root([Link('h', Sequence[TypeRef['H']], lambda: ids,
                       requires=None)])])
    except Exception as e:
        c.update(accepted=False, ran=False, err=repr(e)[:200])
        return c
    try:
        r = Engine(SyncExecutor()).execute(graph, QN([QL('h', QN([
            QF(name, {o['name']: o['py'] for o in opts})]))]))
        c['values'] = [show(x[name]) for x in r['h']]
    except Exception as e:
        c.update(ran=False, err=repr(e)[:200])
    c['touched'] = keep.touched()
    c['loaded'] = [x for x in loaded if x[1] != '_id']
    return c


def refs(t, v):
    one = lambda i: {'t': 'ref', 's': enc(i), 'kk': [target(t)], 'c': []}
    if t['k'] == 'seq':
        return {'t': 'many', 's': 'many', 'kk': [], 'c': [one(i) for i in v]}
    return val(None) if v is Nothing else one(v)


def target(t):
    return t['s'] or target(t['a'][0])


# -- random ones -------------------------------------------------------------------------

class G:
    LITS = [1, 'q', True, False, None, 2.5, '']

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.lits = {enc(v): v for v in self.LITS}
        self.nfn = 0

    # types of fields; complex data is in D1 and D2
    def ftype(self, depth=2):
        r = self.r
        x = r.random()
        if not depth or x < .35:
            return ty(r.choice(['int', 'str', 'any', 'bool', 'float']))
        if x < .5:
            return ty('ref', s=r.choice(['D1', 'D2']))
        if x < .7:
            return ty('opt', self.ftype(depth - 1))
        if x < .9:
            return ty('seq', self.ftype(depth - 1))
        if x < .95:
            return ty('map', ty(r.choice(['str', 'str', 'any'])),
                      self.ftype(depth - 1))
        return ty('rec', self.ftype(depth - 1), self.ftype(depth - 1),
                  n=['p', 'q'])

    def graph(self):
        r = self.r
        self.dts = {'D1': ty('rec', self.ftype(1) if r.random() < .3 else
                             ty('int'), ty('str'), n=['a', 'b'])}
        while target_in(self.dts['D1']):
            self.dts['D1'] = ty('rec', ty('int'), ty('str'), n=['a', 'b'])
        self.dts['D2'] = ty('rec', ty('any'), ty('ref', s='D1'),
                            ty('opt', ty('ref', s='D1')),
                            ty('seq', ty('ref', s='D1')),
                            n=['a', 'c', 'd', 'l'])
        self.items = {}
        for node in ['X', 'Y', '']:
            its = []
            for i in range(r.randint(2, 4)):
                its.append(('f%d' % i, self.ftype(), False))
            for i in range(r.randint(1, 3)):
                t = ty('ref', s=r.choice(['X', 'Y']))
                w = r.choice(['one', 'opt', 'seq'])
                its.append(('l%d' % i, t if w == 'one' else ty(w, t), True))
            self.items[node] = its
        self.ts = [{'name': n, 'node': n in ('X', 'Y', ''), 'type': t}
                   for n, t in list(self.dts.items()) + [
                       (node, ty('rec', *[t for _, t, _ in its],
                                 n=[m for m, _, _ in its]))
                       for node, its in self.items.items()]]
        self.types = {x['name']: x['type'] for x in self.ts}
        self.pools = {'X': [0, 1, 2][:r.randint(1, 3)],
                      'Y': ['y', 'z'][:r.randint(1, 2)]}
        self.table = {}
        for node, its in self.items.items():
            for i in self.pools.get(node, ['']):
                for name, t, link in its:
                    self.table[node, i, name] = \
                        self.links(t) if link else self.value(t)

    def links(self, t):
        r = self.r
        if t['k'] == 'seq':
            return [r.choice(self.pools[target(t)])
                    for _ in range(r.randint(0, 2))]
        if t['k'] == 'opt' and r.random() < .4:
            return Nothing
        return r.choice(self.pools[target(t)])

    def value(self, t):
        r, k = self.r, t['k']
        if k == 'opt':
            return None if r.random() < .4 else self.value(t['a'][0])
        if k == 'seq':
            return [self.value(t['a'][0]) for _ in range(r.randint(0, 2))]
        if k == 'map':
            return {x: self.value(t['a'][1]) for x in
                    r.sample(['u', 'v'], r.randint(0, 2))}
        if k == 'rec':
            return {n: self.value(x) for n, x in zip(t['n'], t['a'])}
        if k == 'ref':
            return self.value(self.types[t['s']])
        return r.choice({'int': [0, 1, -5], 'str': ['', 'a', 'b c'],
                         'bool': [True, False], 'float': [0.0, 1.5],
                         'any': [None, 0, 'x', [1, 'a'], {'k': [None]}]}[k])

    # -- references, with their types
    def to(self, t):
        return self.types[t['s']] if t['k'] == 'ref' else t

    def chain(self, env, want=None):
        """a reference; want: kind of its type"""
        r = self.r
        best = None
        for _ in range(12):
            root = self.to(ty('ref', s=''))
            names = list(env) * 2 + ['this'] * 2 + root['n'][:2]
            n = r.choice(names)
            if r.random() < .02:
                n = 'zz'
            t = env.get(n) or (root['a'][root['n'].index(n)]
                               if n in root['n'] else None)
            e = ex('sym', n)
            for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
                x = self.to(t) if t else None
                if x and x['k'] == 'rec' and r.random() > .03:
                    i = r.randrange(len(x['n']))
                    e, t = ex('get', x['n'][i], a=[e]), x['a'][i]
                elif x and x['k'] in ('opt', 'seq', 'map') and \
                        r.random() < .12 and \
                        self.to(x['a'][-1])['k'] == 'rec':
                    # as if it were always there
                    x = self.to(x['a'][-1])
                    i = r.randrange(len(x['n']))
                    e, t = ex('get', x['n'][i], a=[e]), x['a'][i]
                elif r.random() < .04:
                    e, t = ex('get', r.choice(['a', 'f0', 'l0']), a=[e]), None
            best = e, t
            if t and (want is None or self.to(t)['k'] == want):
                break
        return best

    def param(self, t, depth=3):
        """type of a parameter, often one which t fits"""
        r = self.r
        if r.random() < .12 or not depth:
            return ty(r.choice(['any', 'any', 'int', 'str']))
        x = self.to(t) if t else ty('any')
        if r.random() < .1:
            return ty('opt', self.param(t, depth - 1))
        if r.random() < .03:
            return ty('seq', self.param(t, depth - 1))
        if x['k'] == 'rec':
            ns = r.sample(range(len(x['n'])), r.randint(0, min(
                2, len(x['n']))))
            out = ty('rec', *[self.param(x['a'][i], depth - 1) for i in ns],
                     n=[x['n'][i] for i in ns])
            if r.random() < .05:
                out['n'].append('zz')
                out['a'].append(ty('any'))
            return out
        if x['k'] in ('opt', 'seq', 'map'):
            if x['k'] == 'opt' and r.random() < .1:
                return self.param(x['a'][0], depth - 1)
            out = ty(x['k'], *[self.param(y, depth - 1) for y in x['a']])
            if x['k'] == 'map' and r.random() < .2:
                out['a'][0] = ty(r.choice(['int', 'any', 'str']))
            return out
        return x

    def expr(self, env, depth):
        r = self.r
        if not depth or r.random() < .15:
            if r.random() < .15:
                return lit(enc(r.choice(self.LITS)))
            return self.chain(env)[0]
        op = r.choice(['each', 'ifsome', 'call', 'call', 'if', 'list', 'dict',
                       'ref', 'twins'])
        sub = lambda: self.expr(env, depth - 1)
        var = lambda: r.choice(['x', 'y', 'x', 'o1', 'f0', 'x_2'])
        if op == 'each':
            c, t = self.chain(env, 'seq' if r.random() < .95 else None)
            t = self.to(t) if t else ty('any')
            if r.random() < .03:
                c = sub()
            v = var()
            return ex('each', v, a=[c, self.expr(
                {**env, v: t['a'][0] if t['k'] == 'seq' else t}, depth - 1)])
        if op == 'ifsome':
            c, t = self.chain(env, 'opt' if r.random() < .9 else None)
            t = self.to(t) if t else ty('any')
            if r.random() < .03:
                c = sub()
            v = var()
            return ex('ifsome', v, a=[c, self.expr(
                {**env, v: t['a'][0] if t['k'] == 'opt' else t}, depth - 1),
                sub()])
        if op == 'twins':
            # one body, bound to different things
            v, k = var(), r.choice(['each', 'each', 'ifsome'])
            kind = 'seq' if k == 'each' else 'opt'
            binds = [self.chain(env, kind) for _ in range(r.choice([2, 2, 3]))]
            t = self.to(binds[0][1]) if binds[0][1] else ty('any')
            inner = {**env, v: t['a'][0] if t['k'] == kind else t}
            body = self.expr(inner, r.randint(0, depth - 1))
            x = self.to(inner[v])
            if x['k'] == 'rec' and r.random() < .6:
                # (names which most of things have)
                body = ex('get', r.choice(x['n'][:2]), a=[ex('sym', v)])
            return ex('list', a=[
                ex(k, v, a=[c, body] + ([lit('null')] if k == 'ifsome' else
                                        [])) for c, _ in binds])
        if op == 'if':
            return ex('if', a=[sub(), sub(), sub()])
        if op == 'list':
            return ex('list', a=[sub() for _ in range(r.randint(0, 2))])
        if op == 'dict':
            ks = sorted(r.sample(['a', 'b', 'c'], r.randint(0, 2)))
            return ex('dict', p=ks, a=[sub() for _ in ks])
        if op == 'call':
            self.nfn += 1
            args, types, last = [], [], None
            for _ in range(r.choice([1, 1, 2])):
                if args and last and r.random() < .3:
                    # the same again, needed for something else
                    a, t = last
                    types.append(self.param(t))
                elif r.random() < .75:
                    a, t = self.chain(env, r.choice([None, 'rec', 'rec',
                                                     'seq', 'opt', 'map']))
                    last = a, t
                    types.append(self.param(t))
                else:
                    a = sub()
                    types.append(ty('any') if r.random() < .9 else
                                 ty('opt', ty('any')) if r.random() < .5 else
                                 ty('int'))
                args.append(a)
            if r.random() < .02:
                args.append(sub())
            return call('fn%d' % self.nfn, args, types)
        return self.chain(env)[0]


def target_in(t):
    return t['k'] == 'ref' or any(target_in(x) for x in t['a'])


def rand(arg):
    g = G(arg['seed'])
    r = g.r
    g.graph()
    out = []
    for _ in range(arg['n']):
        node = r.choice(['X', 'Y'])
        opts = []
        for n in r.sample(['o1', 'f1', 'x'], r.choice([0, 0, 1, 2])):
            t = g.ftype(1) if r.random() < .7 else \
                ty('opt', ty('ref', s=r.choice(['D1', 'D2'])))
            opts.append({'name': n, 'type': t, 'py': g.value(t)})
        env = {o['name']: o['type'] for o in opts}
        env['this'] = ty('ref', s=node)
        direct = r.random() < .03
        if direct:
            opts = []
            e = ex('get', r.choice(['f0', 'f1', 'f2', 'l0', 'zz']),
                   a=[ex('sym', 'this')])
        else:
            e = g.expr(env, r.randint(1, 3))
        ids = [r.choice(g.pools[node]) for _ in range(r.randint(1, 3))]
        out.append(observe(
            {'ts': g.ts, 'node': node, 'opts': opts, 'e': e,
             'items': g.items, 'table': g.table, 'ids': ids}, g.lits, direct))
    return out


# -- those of the model -------------------------------------------------------------------

MC = ('SPECIFICATION %s\nCONSTANT Wraps = %d\nINVARIANT Sound\n'
      'CHECK_DEADLOCK FALSE\n')
ITEMS = {'': [('f', ty('str'), False), ('x', ty('ref', s='X'), True)],
         'X': [('f', ty('int'), False),
               ('d', ty('opt', ty('seq', ty('ref', s='D'))), False),
               ('m', ty('opt', ty('ref', s='X')), True),
               ('s', ty('seq', ty('ref', s='Y')), True)],
         'Y': [('a', ty('any'), False)]}
TS = [{'name': 'D', 'node': False, 'type': ty('rec', ty('int'), n=['a'])}] + [
    {'name': name, 'node': True, 'type': ty('rec', *[t for _, t, _ in its],
                                            n=[m for m, _, _ in its])}
    for name, its in ITEMS.items()]
STORES = [
    {('', '', 'f'): 'r', ('', '', 'x'): 1, ('X', 1, 'f'): 0, ('X', 1, 'd'): d,
     ('X', 1, 'm'): m, ('X', 1, 's'): s, ('Y', 2, 'a'): 'y'}
    for d in [None, [], [{'a': 5}, {'a': 6}]]
    for m in [Nothing, 1] for s in [[], [2, 2]]]


def small(arg):
    out = []
    for i, e in enumerate(arg['es']):
        # full stores are the most telling
        store = STORES[-1] if i % 2 else STORES[(i + arg['k']) % len(STORES)]
        out.append(observe({'ts': TS, 'node': 'X', 'opts': [], 'e': e,
                            'items': ITEMS, 'table': store, 'ids': [1]},
                           {'b:1': True}))
    return out


def run(check, recipe=None):
    if recipe is None:
        check.tlc(model('MSpec', 2))
        res = model('ESpec', 1)
        es = sorted(res.tagged('EXPR'), key=str)
        if not check.thorough:
            es = [e for k, e in enumerate(es) if (k + check.seed) % 2]
        cases.run(check, None, MODULE, small,
                  [{'es': es[k:k + 40], 'k': k // 40 + check.seed}
                   for k in range(0, len(es), 40)], count='enumerated')
    else:
        cases.run(check, recipe, MODULE, small, [])
    cases.run(check, recipe, MODULE, rand,
              [{'seed': check.seed * 7919000 + k, 'n': 12}
               for k in range(check.n(350, 6000))])


def model(spec, wraps):
    res = tlc.run('HikuExprTypesMC', MC % (spec, wraps))
    if res.violated:
        raise RuntimeError('specification is broken\n' + res.out[-2000:])
    return res
