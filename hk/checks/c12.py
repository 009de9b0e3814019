"""C12: query validation."""
import copy
import random
import re

from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.graph import Field, Graph, Link, Node, Option, Root
from hiku.denormalize.base import Denormalize
from hiku.query import Field as QF, Link as QL, Node as QN, merge
from hiku.result import denormalize
from hiku.types import (Any, Boolean, Float, Integer, Mapping, Optional,
                        Record, Sequence, String, TypeRef)
from hiku.validate.query import validate

from .. import cases, tlc
from ..cases import Keep, shared
from ..enc import enc, unesc

MC = ('SPECIFICATION VSpec\nCHECK_DEADLOCK FALSE\nCONSTANT Two = %s\n'
      'INVARIANTS PartsValid OrderFree AliasFree\n')


# -- types and values -----------------------------------------------------------

def ty(k, a=(), n=(), s=''):
    return {'k': k, 'a': list(a), 'n': list(n), 's': s}


def pytype(t):
    k, a = t['k'], t['a']
    simple = {'none': None, 'any': Any, 'bool': Boolean, 'str': String,
              'int': Integer, 'float': Float}
    if k in simple:
        return simple[k]
    if k == 'opt':
        return Optional[pytype(a[0])]
    if k == 'seq':
        return Sequence[pytype(a[0])]
    if k == 'map':
        return Mapping[pytype(a[0]), pytype(a[1])]
    if k == 'rec':
        return Record[[(n, pytype(x) or Any) for n, x in zip(t['n'], a)]]
    return TypeRef[t['s']]


def vt(v):
    """tree of a value"""
    if v is None:
        return {'k': 'n', 'a': [], 'n': [], 's': 'null'}
    if isinstance(v, (list, tuple)):
        return {'k': 'l', 'a': [vt(i) for i in v], 'n': [], 's': enc(v)}
    if isinstance(v, dict):
        ks = sorted(v)
        return {'k': 'd', 'a': [vt(v[k]) for k in ks], 'n': ks, 's': enc(v)}
    k = {bool: 'b', int: 'i', float: 'f', str: 's'}[type(v)]
    return {'k': k, 'a': [], 'n': [], 's': enc(v)}


def unvt(v):
    k, s = v['k'], v['s']
    return {'n': lambda: None, 'l': lambda: [unvt(i) for i in v['a']],
            'd': lambda: dict(zip(v['n'], map(unvt, v['a']))),
            'b': lambda: s == 'b:1', 'i': lambda: int(s[2:]),
            'f': lambda: float(s[2:]), 's': lambda: unesc(s[2:])}[k]()


def make(r, t, dts, depth=0):
    """data of a type"""
    k, a = t['k'], t['a']
    if k == 'ref':
        return make(r, dts[t['s']], dts, depth + 1)
    if k == 'opt':
        return None if r.random() < .3 or depth > 4 else \
            make(r, a[0], dts, depth + 1)
    if k == 'seq':
        return [] if depth > 4 else [make(r, a[0], dts, depth + 1)
                                     for _ in range(r.randint(0, 3))]
    if k == 'map':
        return {x: make(r, a[1], dts, depth + 1)
                for x in r.sample(['a', 'b', 'c'], r.randint(0, 2))}
    if k == 'rec':
        return {n: make(r, x, dts, depth + 1) for n, x in zip(t['n'], a)}
    return {'bool': True, 'str': r.choice(['', 'x', 'yz']),
            'int': r.randint(-2, 3), 'float': r.choice([0.0, 1.5])
            }.get(k, r.choice([None, 1, 'x', [1], {'a': 1}]))


# -- running the real code --------------------------------------------------------

def graph(g):
    dts = {d['name']: d['type'] for d in g['dts']}
    idents = {n['name']: ['%s%d' % (n['name'], i) for i in range(3)]
              for n in g['nodes']}

    def opts(it):
        return [Option(o['name'], pytype(o['type']),
                       **({'default': unvt(o['def'])} if o['has'] else {}))
                for o in it['opts']]

    nodes = []
    for nd in g['nodes']:
        types = {it['name']: it['type'] for it in nd['items']}

        def load(fields, ids=None, types=types):
            row = [make(random.Random('%s %s' % (f.name, enc(f.options))),
                        types[f.name], dts) for f in fields]
            return row if ids is None else [list(row) for _ in ids]
        out = []
        for it in nd['items']:
            if it['k'] == 'f':
                out.append(Field(it['name'], pytype(it['type']), load,
                                 options=opts(it)))
                continue

            def link(*args, it=it):
                h = random.Random('%s %s' % (it['name'], enc(list(args))))
                x = idents[it['to']]
                return (x[:h.randint(0, 3)] if it['type']['k'] == 'seq'
                        else h.choice(x))
            out.append(Link(it['name'], pytype(it['type']), link,
                            requires=None, options=opts(it)))
        nodes.append((nd['name'], out))
    return Graph([Node(n, o) for n, o in nodes if n] +
                 [Root(o) for n, o in nodes if not n],
                 data_types={n: pytype(t) for n, t in dts.items()})


def query(q, memo=None):
    """memo: equal parts are the same objects"""
    out = []
    for f in q['fields']:
        o = {n: unvt(v) for n, _, v in f['opts']} or None
        o = shared(memo, ('o', f['opts']), o)
        if f['k'] == 'f':
            x = QF(f['name'], o, f['alias'] or None)
        else:
            x = QL(f['name'], query(f['node'], memo), o, f['alias'] or None)
        out.append(shared(memo, f, x))
    return shared(memo, q, QN(out))


def observe(g, q):
    c = {'g': g, 'q': q, 'errs': [], 'err': '', 'run': '', 'touched': []}
    gr, qu = graph(g), query(q, {} if len(repr(q)) % 3 else None)
    keep = Keep()
    keep('the query', qu)
    try:
        errs = validate(gr, qu)
        if validate(gr, qu) != errs:
            c['touched'].append('the errors')
        c['errs'] = [sorted(set(re.findall(r'\w+', e))) for e in errs]
    except Exception as e:
        c['err'] = repr(e)[:200]
        return c
    if not errs:
        try:
            res = Engine(SyncExecutor()).execute(gr, qu)
            a = denormalize(gr, res)
            b = Denormalize(gr, res).process(qu)
            if enc(a) != enc(b):
                c['run'] = 'denormalized differently: %s %s' % (a, b)
        except Exception as e:
            c['run'] = repr(e)[:200]
    c['touched'] += keep.touched()
    return c


def small(arg):
    return observe(arg['g'], arg['q'])


# -- random graphs and queries ------------------------------------------------------

SCALAR = ['any', 'bool', 'str', 'int', 'float']


class R:

    def __init__(self, r):
        self.r = r
        self.names = ['R%d' % i for i in range(r.randint(1, 3))]

    def scalar(self):
        return ty(self.r.choice(SCALAR))

    def vtype(self, depth, dts):
        """a type of an option"""
        r = self.r
        x = r.random()
        if depth == 0 or x < .4:
            return self.scalar()
        if x < .55:
            return ty('opt', [self.vtype(depth - 1, dts)])
        if x < .7:
            return ty('seq', [self.vtype(depth - 1, dts)])
        if x < .8:
            return ty('map', [ty('str'), self.vtype(depth - 1, dts)])
        if x < .9:
            ns = r.sample(['a', 'b', 'c'], r.randint(1, 2))
            return ty('rec', [self.vtype(depth - 1, dts) for _ in ns], ns)
        return ty('ref', s=r.choice(self.names))

    def ctype(self):
        """a type with fields inside"""
        t = ty('ref', s=self.r.choice(self.names))
        k = self.r.choice(['', 'opt', 'seq'])
        return ty(k, [t]) if k else t

    def opts(self):
        r = self.r
        out = []
        for n in r.sample(['o1', 'o2', 'o3'], r.choice([0, 0, 1, 2, 3])):
            t = ty('none') if r.random() < .1 else self.vtype(2, None)
            has = r.random() < .6
            d = make(r, t, self.dts)
            if r.random() < .05:
                d = r.choice([None, 'x', {'a': 1}, 2.5])
            out.append({'name': n, 'type': t, 'has': has,
                        'def': vt(d if clean(d, t) else None)})
        return out

    def graph(self):
        r = self.r
        dts = {}
        for k, n in enumerate(self.names):
            ns = r.sample(['a', 'b', 'c', 'd'], r.randint(1, 4))
            a = []
            for _ in ns:
                x = r.random()
                if x < .35:
                    # records may be recursive through Optional or Sequence
                    t = ty('ref', s=r.choice(self.names))
                    a.append(ty(r.choice(['opt', 'seq']), [t]))
                elif x < .45 and k:
                    a.append(ty('ref', s=r.choice(self.names[:k])))
                else:
                    a.append(self.scalar())
            dts[n] = ty('rec', a, ns)
        self.dts = dts
        nn = ['', 'A', 'B'][:r.randint(1, 3)]
        nodes = []
        for n in nn:
            items = []
            for name in ['f0', 'f1', 'f2', 'c0', 'c1'][:r.randint(2, 5)]:
                t = self.ctype() if name[0] == 'c' else r.choice(
                    [ty('none'), self.scalar(), ty('seq', [self.scalar()]),
                     ty('opt', [self.scalar()])])
                items.append({'k': 'f', 'name': name, 'type': t, 'to': '',
                              'opts': self.opts()})
            if len(nn) > 1:
                for name in ['l0', 'l1'][:r.randint(1, 2)]:
                    to = r.choice(nn[1:])
                    t = ty('ref', s=to)
                    k = r.choice(['', 'opt', 'seq'])
                    items.append({'k': 'l', 'name': name, 'to': to,
                                  'type': ty(k, [t]) if k else t,
                                  'opts': self.opts()})
            nodes.append({'name': n, 'items': items})
        self.g = {'nodes': nodes,
                  'dts': [{'name': n, 'type': t} for n, t in dts.items()]}
        return self.g

    def graph_root(self):
        """fields for another root"""
        its = [{'k': 'f', 'name': n, 'to': '', 'opts': self.opts(),
                'type': self.vtype(2, None)} for n in ('m0', 'm1')]
        return {'nodes': [{'name': '', 'items': its}], 'dts': []}

    # queries: mostly right, with mistakes
    def err(self, p=.04):
        return self.bad and self.r.random() < p

    def qopts(self, decl):
        r = self.r
        out = {}
        for o in decl:
            if (not o['has'] and not self.err(.1)) or r.random() < .5:
                v = make(r, o['type'], self.dts)
                if self.err(.15):
                    v = corrupt(r, v)
                elif self.err(.1) and isinstance(v, dict):
                    v = dict(v)
                    if v and r.random() < .5:
                        v.pop(r.choice(sorted(v)))
                    else:
                        v['zz'] = 1
                if clean(v, o['type'], self.dts):
                    out[o['name']] = v
        if self.err():
            out[r.choice(['o1', 'o2', 'zz'])] = 1
        out = {k: v for k, v in out.items()
               if clean(v, next((o['type'] for o in decl if o['name'] == k),
                                ty('none')), self.dts)}
        return out

    def item(self, name, opts, sub):
        r = self.r
        alias = None
        if r.random() < .35:
            alias = r.choice(['x1', 'x2', 'x3', 'f0', 'a', 'l0'])
        return (QL(name, sub, opts or None, alias) if sub is not None
                else QF(name, opts or None, alias))

    def sub(self, node, depth):
        r = self.r
        items = next(n['items'] for n in self.g['nodes'] if n['name'] == node)
        out = []
        for _ in range(r.randint(1, 4)):
            it = r.choice(items)
            name = it['name']
            if self.err():
                name = r.choice(['f0', 'c0', 'l0', 'l1', 'zz', 'a'])
            rec = it['k'] == 'f' and self.rec(it['type'])
            if it['k'] == 'l':
                if not depth:
                    continue
                s = self.sub(it['to'], depth - 1)
            elif rec:
                if not depth:
                    continue
                s = self.rsub(rec, depth - 1)
            else:
                s = None
            if self.err() and (s is None or not rec):
                # (a complex field requested as a whole is up to the user)
                s = None if s is not None else QN([QF('a')])
            out.append(self.item(name, self.qopts(it['opts']), s))
        return QN(out or [QF('f0', self.qopts(next(
            i['opts'] for i in items if i['name'] == 'f0')) or None)])

    def rec(self, t):
        if t['k'] in ('opt', 'seq'):
            t = t['a'][0]
        if t['k'] == 'ref':
            t = self.dts[t['s']]
        return t if t['k'] == 'rec' else None

    def rsub(self, rec, depth):
        r = self.r
        out = []
        for _ in range(r.randint(1, 3)):
            i = r.randrange(len(rec['n']))
            name, t = rec['n'][i], rec['a'][i]
            if self.err():
                name = r.choice(['a', 'b', 'c', 'd', 'zz'])
            sub = self.rec(t)
            if sub and depth <= 0:
                continue
            s = self.rsub(sub, depth - 1) if sub else None
            if self.err():
                s = None if s is not None else QN([QF('a')])
            o = {'o1': 1} if self.err() else None
            out.append(self.item(name, o, s))
        if not out:
            flat = [n for n, t in zip(rec['n'], rec['a']) if not self.rec(t)]
            if not flat:
                self.deadend = True
                return QN([QF(rec['n'][0])])
            out.append(QF(r.choice(flat)))
        return QN(out)


def clean(v, t, dts=None):
    """leaves out what hiku deliberately does not tell apart: booleans as
    integers, strings as sequences"""
    k = t['k']
    if k == 'ref':
        return dts is None or clean(v, dts[t['s']], dts)
    if k == 'int':
        return type(v) is not bool
    if k == 'opt':
        return v is None or clean(v, t['a'][0], dts)
    if k == 'seq':
        return not isinstance(v, str) and (
            not isinstance(v, list) or
            all(clean(i, t['a'][0], dts) for i in v))
    if k == 'map':
        return not isinstance(v, dict) or all(
            clean(i, t['a'][1], dts) for i in v.values())
    if k == 'rec':
        return not isinstance(v, dict) or all(
            clean(v[n], x, dts) for n, x in zip(t['n'], t['a']) if n in v)
    return True


def qjson(node):
    out = []
    for f in node.fields:
        link = isinstance(f, QL)
        out.append({'k': 'l' if link else 'f', 'name': f.name,
                    'alias': f.alias or '',
                    'opts': [[k, enc(v), vt(v)]
                             for k, v in sorted((f.options or {}).items())],
                    'node': qjson(f.node) if link else
                    {'ord': False, 'fields': []}})
    return {'ord': False, 'fields': out}


def whole(g, q, node='', rec=None):
    """complex fields requested without sub-fields at nodes; values which
    are not told apart (of names from elsewhere)"""
    items = {i['name']: i for n in g['nodes'] if n['name'] == node
             for i in n['items']}
    for f in q['fields']:
        it = items.get(f['name'])
        if it is None:
            continue
        types = {o['name']: o['type'] for o in it['opts']}
        dts = {d['name']: d['type'] for d in g['dts']}
        if any(n in types and not clean(unvt(v), types[n], dts)
               for n, _, v in f['opts']):
            return True
        if it['k'] == 'l' and f['k'] == 'l' and whole(g, f['node'], it['to']):
            return True
        if it['k'] == 'f' and f['k'] == 'f' and it['name'][0] == 'c':
            return True
    return False


def same(r, q):
    """parts of the query are used once more, in other places"""
    parts = []

    def walk(n):
        for f in n['fields']:
            if f['k'] == 'l':
                walk(f['node'])
                if parts and r.random() < .5:
                    f['node'] = copy.deepcopy(r.choice(parts))
                parts.append(f['node'])
    walk(q)


def rand(arg):
    r = random.Random(arg['seed'])
    out = []
    for _ in range(4):
        x = R(r)
        g = x.graph()
        x.deadend = False
        x.bad = r.random() < .6
        q = qjson(merge([x.sub('', 3)]))
        if r.random() < .4:
            same(r, q)
        if not whole(g, q):
            out.append(observe(g, q))
    return out


POOL = [None, True, False, 0, 1, 0.0, 1.5, '', 'x', [], {}, [0], [None],
        ['x'], {'a': 0}, {'a': None}, {'zz': 1}]


def corrupt(r, v):
    """another value, different in one place"""
    x = r.random()
    if isinstance(v, list) and v and x < .7:
        k = r.randrange(len(v))
        return v[:k] + [corrupt(r, v[k])] + v[k + 1:]
    if isinstance(v, dict) and v and x < .85:
        k = r.choice(sorted(v))
        if x < .2:
            return {n: i for n, i in v.items() if n != k}
        if x < .3:
            return dict(v, zz=r.choice(POOL))
        return dict(v, **{k: corrupt(r, v[k])})
    return r.choice(POOL)


def values(arg):
    """values of options"""
    r = random.Random(arg['seed'])
    x = R(r)
    x.graph()
    dts = [{'name': n, 'type': t} for n, t in x.dts.items()]
    out = []
    for _ in range(1 if arg.get('long') else 8):
        t = x.vtype(3, None)
        if arg.get('long'):
            it = x.vtype(1, None) if r.random() < .5 else x.scalar()
            t = ty('map', [ty('str'), it]) if r.random() < .3 else \
                ty('seq', [it])
            if r.random() < .2:
                t = ty('opt', [t])
        has = r.random() < .3
        d = make(r, t, x.dts)
        decl = [{'name': 'o', 'type': t, 'has': has,
                 'def': vt(d if has and clean(d, t, x.dts) else None)}]
        v = make(r, t, x.dts)
        if arg.get('long'):
            size = r.choice([40, 70, 110, 150, 270])
            items = [make(r, it, x.dts, 3) for _ in range(size)]
            k = r.randrange(size)
            if r.random() < .8:
                items[k] = corrupt(r, items[k])
            m = t['a'][0] if t['k'] == 'opt' else t
            v = items if m['k'] == 'seq' else \
                {'k%d' % n: i for n, i in enumerate(items)}
        else:
            for _ in range(r.choice([0, 1, 1, 1, 2])):
                v = corrupt(r, v)
        if not clean(v, t, x.dts):
            continue
        c = ty('rec', [ty('int')], ['a'])
        g = {'nodes': [
            {'name': '', 'items': [
                {'k': 'f', 'name': 'f0', 'type': ty('int'), 'to': '',
                 'opts': decl},
                {'k': 'f', 'name': 'c0', 'type': ty('ref', s='Rc'), 'to': '',
                 'opts': decl},
                {'k': 'l', 'name': 'l0', 'type': ty('ref', s='A'), 'to': 'A',
                 'opts': decl}]},
            {'name': 'A', 'items': [
                {'k': 'f', 'name': 'a', 'type': ty('int'), 'to': '',
                 'opts': []}]}],
            'dts': dts + [{'name': 'Rc', 'type': c}]}
        n = r.choice(['f0', 'c0', 'l0'])
        q = QN([QF(n, {'o': v}) if n == 'f0' else
                QL(n, QN([QF('a')]), {'o': v})])
        out.append(observe(g, qjson(q)))
    return out


def run(check, recipe=None):
    args = []
    if recipe is None:
        res = tlc.run('HikuValidateMC', MC % 'TRUE')
        check.tlc(res)
        if res.violated:
            raise RuntimeError('specification is broken\n' + res.out[-2000:])
        args = res.tagged('QUERY')
    cases.run(check, recipe, 'HikuValidateCases', small, args,
              count='enumerated')
    cases.run(check, recipe, 'HikuValidateCases', values,
              [{'seed': check.seed * 7368787 + k}
               for k in range(check.n(700, 10000))], count='option_values')
    cases.run(check, recipe, 'HikuValidateCases', values,
              [{'seed': check.seed * 9368787 + k, 'long': True}
               for k in range(check.n(160, 1500))], count='long_values')
    cases.run(check, recipe, 'HikuValidateCases', rand,
              [{'seed': check.seed * 15485863 + k}
               for k in range(check.n(800, 12000))])
