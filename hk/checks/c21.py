"""C21: construction and transformation of graphs."""
import random
from collections import OrderedDict
import re

from hiku.graph import (Field, Graph, GraphTransformer, Link, Many, Maybe, Node,
                        Nothing, One,
                        Option, Root, apply)
from hiku.types import (AnyMeta, BooleanMeta, FloatMeta, IntegerMeta,
                        MappingMeta, OptionalMeta, RecordMeta, SequenceMeta,
                        StringMeta, TypeRefMeta, Any, Boolean, Float, Integer,
                        Mapping, Optional, Record, Sequence, String, TypeRef)
from hiku.validate.graph import GraphValidationError

from .. import cases, tlc
from ..enc import enc
from .c12 import ty

MODULE = 'HikuGraphsCases'
MC = ('SPECIFICATION MSpec\nCHECK_DEADLOCK FALSE\n'
      'CONSTANTS Items = %d Size = %d\n'
      'INVARIANTS Linked Neutral Typed\n')


class Func:
    def __init__(self, num):
        self.num = num

    def __call__(self, *args):
        raise AssertionError('not requested')


class Post(Func):
    def __postprocess__(self, item):
        item.func = DONE[self.num + 100]


DONE = [Func(n) for n in range(200)]
POST = [Post(n) for n in range(100)]


def func(n):
    return DONE[n] if n >= 100 else POST[n]


def typetree(t):
    if t is None:
        return ty('none')
    for meta, k in [(AnyMeta, 'any'), (BooleanMeta, 'bool'),
                    (FloatMeta, 'float'), (IntegerMeta, 'int'),
                    (StringMeta, 'str')]:
        if isinstance(t, meta):
            return ty(k)
    if isinstance(t, OptionalMeta):
        return ty('opt', [typetree(t.__type__)])
    if isinstance(t, SequenceMeta):
        return ty('seq', [typetree(t.__item_type__)])
    if isinstance(t, MappingMeta):
        return ty('map', [typetree(t.__key_type__),
                          typetree(t.__value_type__)])
    if isinstance(t, RecordMeta):
        fs = t.__field_types__
        return ty('rec', [typetree(x) for x in fs.values()], list(fs))
    if isinstance(t, TypeRefMeta):
        return ty('ref', s=t.__type_name__)
    return ty('unknown', s=repr(t))


# descriptions -> objects

def pytype(t, top=True):
    """inside of containers references may be given as names"""
    k, a = t['k'], t['a']
    simple = {'none': None, 'any': Any, 'bool': Boolean, 'str': String,
              'int': Integer, 'float': Float}
    if k in simple:
        return simple[k]
    if k == 'ref':
        return TypeRef[t['s']] if top or ord(t['s'][-1]) % 2 else t['s']
    a = [pytype(x, False) for x in a]
    if k == 'opt':
        return Optional[a[0]]
    if k == 'seq':
        return Sequence[a[0]]
    if k == 'map':
        return Mapping[a[0], a[1]]
    rec = [(n, x or Any) for n, x in zip(t['n'], a)]
    return Record[rec if len(rec) % 2 else dict(rec)]

def option(o):
    if o['k'] != 'o':
        return Field(o['name'], None, None)
    kw = {'default': o['py']} if o['has'] else {}
    return Option(o['name'], pytype(o['type']),
                  description=o['desc'] or None, **kw)


def item(it):
    opts = [option(o) for o in it['opts']]
    opts = opts or None
    if it['k'] == 'f':
        return Field(it['name'], pytype(it['type']), func(it['func']),
                     options=opts, description=it['desc'] or None)
    if it['k'] == 'l':
        return Link(it['name'], pytype(it['type']), func(it['func']),
                    requires=it['req'] or None, options=opts,
                    description=it['desc'] or None)
    return Option(it['name'], None)


def part(n):
    if n['k'] == 'other':
        return Field(n['name'], None, None)
    items = [item(it) for it in n['items']]
    if n['k'] == 'root':
        return Root(items)
    return Node(n['name'], items, description=n['desc'] or None)


# objects -> descriptions

def doption(o):
    if type(o) is not Option:
        return {'k': 'other', 'name': o.name, 'type': ty('none'),
                'has': False, 'def': 'null', 'desc': ''}
    has = o.default is not Nothing
    return {'k': 'o', 'name': o.name, 'type': typetree(o.type), 'has': has,
            'def': enc(o.default) if has else 'null',
            'desc': o.description or ''}


def ditem(it):
    k = {Field: 'f', Link: 'l'}.get(type(it), 'other')
    x = {'k': k, 'name': it.name, 'type': typetree(it.type),
         'func': getattr(getattr(it, 'func', None), 'num', -1),
         'req': getattr(it, 'requires', None) or '',
         'desc': it.description or '',
         'opts': [doption(o) for o in getattr(it, 'options', ())]}
    if k == 'l':
        # what it leads to is a part of the type
        t = x['type']
        enum = {'ref': 'One', 'opt': 'Maybe', 'seq': 'Many'}[t['k']]
        to = t if enum == 'One' else t['a'][0]
        if (it.type_enum.__name__, it.node) != (enum, to['s']):
            x['type'] = ty('inconsistent', s='%r %r' % (it.type_enum,
                                                        it.node))
    return x


def dpart(n):
    k = {Root: 'root', Node: 'node'}.get(type(n), 'other')
    if k == 'other':
        return {'k': k, 'name': n.name, 'desc': '', 'items': []}
    return {'k': k, 'name': n.name or '', 'desc': n.description or '',
            'items': [ditem(i) for i in n.fields]}


def mapped(m, xs):
    return list(m) == [x.name for x in xs] and \
        all(a is b for a, b in zip(m.values(), xs))


def view(g):
    maps = all([
        mapped(g.nodes_map, g.nodes), mapped(g.root.fields_map, g.root.fields),
        list(g.iter_nodes()) == g.nodes,
        list(g.iter_root()) == g.root.fields,
        all(mapped(n.fields_map, n.fields) for n in g.items),
        all(mapped(f.options_map, f.options)
            for n in g.items for f in n.fields if len({
                o.name for o in f.options}) == len(f.options))])
    return {'items': [dpart(i) for i in g.items],
            'root': [ditem(i) for i in g.root.fields],
            'nodes': [dpart(n) for n in g.nodes],
            'names': list(g.nodes_map), 'maps': maps,
            'types': [[k, typetree(t)] for k, t in g.__types__.items()],
            'dts': [{'name': k, 'type': typetree(t)}
                    for k, t in g.data_types.items()]}


class T(GraphTransformer):

    def __init__(self, t):
        self.t = t


class Drop(T):

    def left(self, obj):
        return [f for f in obj.fields if f.name != self.t['name']]

    def visit_node(self, obj):
        return super(Drop, self).visit_node(
            Node(obj.name, self.left(obj), description=obj.description))

    def visit_root(self, obj):
        return super(Drop, self).visit_root(Root(self.left(obj)))


class Desc(T):

    def visit_field(self, obj):
        obj = super(Desc, self).visit_field(obj)
        if obj.name == self.t['name']:
            obj.description = self.t['s']
        return obj

    def visit_link(self, obj):
        obj = super(Desc, self).visit_link(obj)
        if obj.name == self.t['name']:
            obj.description = self.t['s']
        return obj


class Opts(T):
    inside = False

    def visit_field(self, obj):
        self.inside = obj.name == self.t['name']
        return super(Opts, self).visit_field(obj)

    def visit_link(self, obj):
        self.inside = obj.name == self.t['name']
        return super(Opts, self).visit_link(obj)

    def visit_option(self, obj):
        obj = super(Opts, self).visit_option(obj)
        if self.inside:
            obj.description = self.t['s']
        return obj


class Add(T):

    def visit_node(self, obj):
        obj = super(Add, self).visit_node(obj)
        if obj.name == self.t['name']:
            obj.fields.append(item(self.t['item']))
        return obj

    def visit_root(self, obj):
        obj = super(Add, self).visit_root(obj)
        if not self.t['name']:
            obj.fields.append(item(self.t['item']))
        return obj


class To(T):

    def visit_link(self, obj):
        obj = super(To, self).visit_link(obj)
        if obj.name != self.t['name']:
            return obj
        return Link(obj.name, pytype(ty('seq', [ty('ref', s=self.t['s'])])),
                    obj.func, requires=obj.requires, options=obj.options,
                    description=obj.description)


TRANSFORMERS = {'id': T, 'drop': Drop, 'desc': Desc, 'opts': Opts,
                'add': Add, 'to': To}


def words(msg):
    return [w for q in re.findall(r'"([^"]*)"', msg)
            for w in re.split('[.:]', q)]


def nopy(g):
    return [dict(n, items=[noitem(i) for i in n['items']]) for n in g]


def noitem(i):
    return dict(i, opts=[{k: v for k, v in o.items() if k != 'py'}
                         for o in i['opts']])


NOVIEW = {'items': [], 'root': [], 'nodes': [], 'names': [], 'maps': False,
          'types': [], 'dts': []}


def observe(g, dts, ts):
    c = {'g': nopy(g), 'dts': dts,
         'ts': [dict(t, item=noitem(t['item'])) for t in ts],
         'ok': False, 'finalok': False, 'kept': True,
         'eqs': [], 'links': [], 'msgs': [], 'first': NOVIEW, 'again': NOVIEW, 'final': NOVIEW}
    parts = [part(n) for n in g]
    before = [dpart(p) for p in parts]
    given = [(d['name'], pytype(d['type'])) for d in dts]
    given = dict(given) if len(str(g)) % 2 else OrderedDict(given)
    had = list(given.items())
    try:
        graph = Graph(parts, given)
    except GraphValidationError as e:
        c['msgs'] = [words(m) for m in e.errors]
        if not all(isinstance(m, str) and m in str(e) for m in e.errors):
            c['msgs'] = []
        return c
    except Exception as e:
        c['msgs'] = [[repr(e)[:200]]]
        return c
    c['ok'] = True
    c['first'] = view(graph)
    try:
        final = apply(graph, [TRANSFORMERS[t['t']](t) for t in ts])
    except GraphValidationError:
        pass
    else:
        c['finalok'] = True
        c['final'] = view(final)
    c['again'] = view(graph)
    c['kept'] = [dpart(p) for p in parts] == before and \
        list(given.items()) == had
    return c


def small(arg):
    return [observe(g, [], []) for g in arg['gs']]


# random graphs

def rtype(r, names, depth=2):
    k = r.randint(0, 9 if depth else 6)
    if k < 6:
        return ty(r.choice(['none', 'any', 'int', 'str', 'bool', 'float']
                           if depth == 2 else
                           ['any', 'int', 'str', 'bool', 'float']))
    if k == 6:
        return ty('ref', s=r.choice(names))
    if k == 7:
        return ty('opt', [rtype(r, names, 0)])
    if k == 8:
        return ty('seq', [rtype(r, names, 1)])
    return r.choice([
        lambda: ty('map', [ty('str'), rtype(r, names, 0)]),
        lambda: ty('rec', [rtype(r, names, 0), rtype(r, names, 0)],
                   ['x', 'y'])])()


def ritem(r, name, names, fields, bad):
    link = r.random() < .45
    opts = []
    for i in range(r.choice([0, 0, 1, 2])):
        has = r.random() < .5
        v = r.choice([None, 0, 'x', [1, None], {'a': .5}, False])
        opts.append({'k': 'o', 'name': 'o%d' % i,
                     'type': rtype(r, names), 'has': has,
                     'def': enc(v) if has else 'null', 'py': v,
                     'desc': r.choice(['', '', 'an option'])})
    if link and bad and r.random() < .05:
        opts.append({'k': 'other', 'name': 'x', 'type': ty('none'),
                     'has': False, 'def': 'null', 'py': None, 'desc': ''})
    x = {'k': 'l' if link else 'f', 'name': name, 'type': rtype(r, names),
         'func': r.randint(0, 199), 'req': '',
         'desc': r.choice(['', '', 'a thing']), 'opts': opts}
    if link:
        t = ty('ref', s=r.choice(names + ['Q'] * (bad and r.random() < .2)))
        x['type'] = r.choice([t, ty('opt', [t]), ty('seq', [t])])
        if r.random() < .4:
            fs = fields + ['zz'] * (bad and r.random() < .2)
            x['req'] = r.choice(fs)
    if bad and r.random() < .02:
        x.update(k='other', type=ty('none'), func=-1, desc='', opts=[],
                 req='')
    return x


def rgraph(r, bad):
    names = ['N%d' % i for i in range(r.randint(1, 3))]
    g, used = [], 0
    for name in names + [''] * r.choice([0, 1, 1, 2]) + \
            ([names[0]] if bad and r.random() < .1 else []):
        n = r.randint(0, 4)
        fields = ['f%d' % (i + (used if not name else 0)) for i in range(n)]
        if not name:
            used += n
        if bad and n > 1 and r.random() < .1:
            fields[0] = fields[1]
        g.append({'k': 'node' if name else 'root', 'name': name,
                  'desc': r.choice(['', 'some']) if name else '',
                  'items': [ritem(r, f, names, fields, bad)
                            for f in fields]})
    if bad and r.random() < .05:
        g.append({'k': 'other', 'name': 'x', 'desc': '', 'items': []})
    r.shuffle(g)
    return names, g


def rtransformer(r, names):
    t = r.choice(['id', 'drop', 'desc', 'opts', 'add', 'to'])
    name = r.choice(['f0', 'f1', 'f2', 'f3'])
    if t == 'add':
        name = r.choice(names + [''])
    return {'t': t, 'name': name,
            's': r.choice(names + ['Q']) if t == 'to' else r.choice('xyz'),
            'item': ritem(r, r.choice(['new', 'f0', 'n2']), names,
                          ['f0', 'new'], False)}


def rand(arg):
    r = random.Random(arg['seed'])
    out = []
    for _ in range(4):
        names, g = rgraph(r, r.random() < .4)
        dts = [{'name': n, 'type': rtype(r, names, 1)}
               for n in r.sample(['D0', 'D1'] + names, r.randint(0, 2))]
        ts = [rtransformer(r, names) for _ in range(r.randint(0, 3))]
        c = observe(g, dts, ts)
        types = [rtype(r, names, 2) for _ in range(4)] + \
            [d['type'] for d in dts]
        for a in types:
            b = r.choice(types + [a])
            if a['k'] != 'none' and b['k'] != 'none':
                x, y = pytype(a), pytype(b)
                c['eqs'].append([a, b, [x == y, y == x, not (x != y)]])
            c['links'].append([a, linked(a)])
        out.append(c)
    return out


def linked(t):
    """what a link of this type is"""
    try:
        x = Link('x', pytype(t), func(0), requires=None)
    except TypeError:
        return {'ok': False, 'kind': '', 'to': ''}
    kinds = [k.__name__ for k in (One, Maybe, Many) if x.type_enum is k]
    return {'ok': True, 'kind': kinds[0] if kinds else '', 'to': x.node}


def run(check, recipe=None):
    if recipe is None:
        for n, m in [(2, 1), (1, 3)] + ([(3, 1), (2, 2)]
                                        if check.thorough else []):
            res = tlc.run('HikuGraphsMC', MC % (n, m))
            check.tlc(res)
            if res.violated:
                raise RuntimeError('specification is broken\n' +
                                   res.out[-2000:])
            gs = res.tagged('GRAPH')
            cases.run(check, None, MODULE, small,
                      [{'gs': gs[k:k + 40]} for k in range(0, len(gs), 40)],
                      count='enumerated')
    else:
        cases.run(check, recipe, MODULE, small, [])
    cases.run(check, recipe, MODULE, rand,
              [{'seed': check.seed * 86028121 + k}
               for k in range(check.n(1000, 15000))])
