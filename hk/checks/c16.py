"""C16: GraphQL introspection."""
import asyncio
import json
import random

from graphql import get_introspection_query, parse_value

from hiku.denormalize.graphql import DenormalizeGraphQL
from hiku.engine import Engine
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.executors.sync import SyncExecutor
from hiku.graph import Field, Graph, Link, Node, Option, Root, apply
from hiku.introspection.graphql import (AsyncGraphQLIntrospection,
                                        GraphQLIntrospection)
from hiku.query import Field as QF, Link as QL, Node as QN
from hiku.readers.graphql import read
from hiku.validate.query import validate

from .. import cases, tlc
from . import c12
from .c12 import make, pytype, query, qjson, ty, unvt, vt

MC = ('SPECIFICATION MSpec\nCHECK_DEADLOCK FALSE\nCONSTANT Depth = %d\n'
      'INVARIANTS SchemaClosed NoDoubleNull NullsKept\n')

FULL = qjson(read(get_introspection_query()))


def items(its):
    out = []
    for it in its:
        opts = [Option(o['name'], pytype(o['type']),
                       description=o['desc'] or None,
                       **({'default': unvt(o['def'])} if o['has'] else {}))
                for o in it['opts']]
        kw = {'description': it['desc'] or None, 'options': opts}
        if it['k'] == 'f':
            out.append(Field(it['name'], pytype(it['type']), unused, **kw))
        else:
            out.append(Link(it['name'], pytype(it['type']), unused,
                            requires=None, **kw))
    return out


def unused(*args):
    raise AssertionError('not requested')


def graphs(c):
    dts = {d['name']: pytype(d['type']) for d in c['g']['dts']}
    g = Graph([Node(n['name'], items(n['items']),
                    description=n['desc'] or None)
               if n['name'] else Root(items(n['items']))
               for n in c['g']['nodes']], data_types=dts)
    m = None
    if c['hasmut']:
        m = Graph([n for n in g.nodes] + [Root(items(c['muts']))],
                  data_types=dts)
    return g, m


def literal(v):
    """meaning of a value in the language of GraphQL"""
    k = v.kind
    if k == 'null_value':
        return None
    if k == 'int_value':
        return int(v.value)
    if k == 'float_value':
        return float(v.value)
    if k == 'string_value':
        # escaped surrogate pairs
        return v.value.encode('utf-16', 'surrogatepass').decode('utf-16')
    if k == 'boolean_value':
        return v.value
    if k == 'list_value':
        return [literal(x) for x in v.values]
    if k == 'object_value':
        return {x.name.value: literal(x.value) for x in v.fields}
    raise ValueError('not a value: %r' % v)


DEFAULTS = [{}, {'a': {}}, {'a': [{'b': None}]}, [{'a': 1}, {'a': True}], '"',
            '\\', 'a\nb', '\u00e9', '\u2028', '\U0001f600', '{a: 1}', '$a',
            '#', '"""', 'null', 2 ** 40, -1, 1e30, 1e-9, -2.5, 1e16, [[]],
            [[None, 'x'], {'b': 'y"'}], {'a': '\t', '_b1': [0.5]}, 'True',
            [True, False, None], '\x7f', '\x01']


def tree(q, v):
    """value tree, with default values parsed"""
    if isinstance(v, list):
        return {'k': 'l', 'n': [], 's': '', 'a': [tree(q, i) for i in v]}
    if not isinstance(v, dict):
        return vt(v)
    by = {f['alias'] or f['name']: f for f in q['fields']}
    ks = list(v)
    out = []
    for k in ks:
        f = by.get(k)
        if f is None:
            out.append(vt(v[k]))
        elif f['name'] == 'defaultValue' and v[k] is not None:
            out.append({'k': 'j', 'n': [], 's': 'json',
                        'a': [vt(literal(parse_value(v[k])))]})
        else:
            out.append(tree(f['node'], v[k]))
    return {'k': 'd', 'n': ks, 's': '', 'a': out}


def strip(q):
    return QN([QL(f.name, strip(f.node), f.options, f.alias)
               if isinstance(f, QL) else f for f in q.fields
               if f.name != '__typename'])


def observe(c, q, asynchronous):
    c = dict(c, q=q, errs=[], err='', v=vt(None))
    try:
        g, m = graphs(c)
        cls = AsyncGraphQLIntrospection if asynchronous \
            else GraphQLIntrospection
        g = apply(g, [cls(g, m)])
        query_ = query(q)
        # endpoints execute queries without __typename
        bare = strip(query_)
        c['errs'] = validate(g, bare)
        if asynchronous:
            async def go():
                return await Engine(AsyncIOExecutor()).execute(g, bare)
            res = asyncio.run(go())
        else:
            res = Engine(SyncExecutor()).execute(g, bare)
        c['v'] = tree(q, DenormalizeGraphQL(g, res, 'Query').process(query_))
    except Exception as e:
        c['err'] = '%s: %s' % (type(e).__name__, str(e)[:200])
    return c


def small(arg):
    return observe(arg['c'], FULL, arg['async'])


# -- random queries ------------------------------------------------------------

LEAF = {'__Type': ['kind', 'name', 'description'],
        '__Field': ['name', 'description', 'isDeprecated',
                    'deprecationReason'],
        '__InputValue': ['name', 'description', 'defaultValue'],
        '__Directive': ['name', 'description', 'locations'],
        '__Schema': []}
LINK = {'__Type': [('fields', '__Field'), ('interfaces', '__Type'),
                   ('possibleTypes', '__Type'),
                   ('enumValues', '__EnumValue'),
                   ('inputFields', '__InputValue'), ('ofType', '__Type')],
        '__Field': [('args', '__InputValue'), ('type', '__Type')],
        '__InputValue': [('type', '__Type')],
        '__Directive': [('args', '__InputValue')],
        '__Schema': [('types', '__Type'), ('queryType', '__Type'),
                     ('mutationType', '__Type'),
                     ('subscriptionType', '__Type'),
                     ('directives', '__Directive')]}


def ask(r, kind, depth):
    if kind == '__EnumValue':
        return QN([QF('name')])
    fs, seen = [], set()

    def add(f):
        if f.result_key not in seen:
            seen.add(f.result_key)
            fs.append(f)
    for _ in range(r.randint(1, 4)):
        x = r.random()
        if x < .1:
            add(QF('__typename', alias=r.choice([None, 't'])))
        elif depth and (x < .6 or not LEAF[kind]):
            name, to = r.choice(LINK[kind])
            o = None
            if name in ('fields', 'enumValues') and r.random() < .3:
                o = {'includeDeprecated': r.random() < .5}
            add(QL(name, ask(r, to, depth - 1), o,
                   alias=r.choice([None, None, 'x', 'y'])))
        elif LEAF[kind]:
            add(QF(r.choice(LEAF[kind]), alias=r.choice([None, None, 'z'])))
    if not fs:
        add(QF('__typename'))
    return QN(fs)


def described(r, g):
    for nd in g['nodes']:
        nd['desc'] = r.choice(['', 'about ' + nd['name']]) if nd['name'] \
            else ''
        for it in nd['items']:
            it['desc'] = r.choice(['', 'about ' + it['name']])
            it['private'] = False
            for o in it['opts']:
                o['desc'] = r.choice(['', 'about ' + o['name']])
                if o['has'] and r.random() < .3:
                    o['def'] = vt(r.choice(DEFAULTS))
        # private things are not shown
        if r.random() < .5:
            it = dict(r.choice(nd['items']))
            it['name'] = '_' + it['name']
            it['private'] = True
            nd['items'].insert(r.randint(0, len(nd['items'])), it)
    return g


def rand(arg):
    r = random.Random(arg['seed'])
    x = c12.R(r)
    g = described(r, x.graph())
    if r.random() < .4:
        g['dts'].append({'name': 'L', 'type': r.choice([
            ty('seq', [ty('ref', s='R0')]), ty('opt', [ty('ref', s='R0')]),
            ty('str'), ty('map', [ty('str'), ty('int')])])})
        g['nodes'][0]['items'].append({
            'k': 'f', 'name': 'al', 'to': '', 'desc': '', 'private': False,
            'opts': [], 'type': r.choice([
                ty('ref', s='L'), ty('opt', [ty('ref', s='L')])])})
    for nd in g['nodes']:
        for it in nd['items']:
            # any type will do
            if it['k'] == 'f' and r.random() < .4:
                it['type'] = x.vtype(3, None)
    c = {'g': g, 'hasmut': r.random() < .4, 'muts': []}
    if c['hasmut']:
        mg = described(r, x.graph_root())
        c['muts'] = mg['nodes'][0]['items']
    roots = []
    for alias in ['', 'a', 'b'][:r.randint(1, 3)]:
        if r.random() < .4:
            name = r.choice([n['name'] for n in g['nodes']] +
                            [d['name'] for d in g['dts']] +
                            ['IOR0', 'R0', 'Query', 'Mutation', 'String',
                             'Any', 'zz', '__Type', 'Int'])
            roots.append(QL('__type', ask(r, '__Type', 5), {'name': name},
                            alias=alias or None))
        else:
            roots.append(QL('__schema', ask(r, '__Schema', 5),
                            alias=alias or None))
    q = FULL if r.random() < .2 else qjson(QN(roots))
    return observe(c, q, r.random() < .3)


# -- graphs without a description ------------------------------------------------

NAMES = ['a-b', '1a', 'a b', '\u00e9a', 'a\u00e9', 'a.b', '-', 'a$', '9', '_', '_9',
         'a9_', 'Z', 'x\u0661', '\u212a', 'a:', '\u00aa']


def odd(arg):
    r = random.Random(arg['seed'])
    g = json.loads(json.dumps(described(r, c12.R(r).graph())))
    names = []

    def name(x, k, odds=.06, empty=False):
        if r.random() < odds:
            x['name'] = r.choice(NAMES)
        names.append({'k': k, 'chars': list(x['name']), 'empty': empty})
    moved = {}
    for nd in g['nodes']:
        empty = r.random() < .05
        if empty:
            nd['items'] = []
        old = nd['name']
        name(nd, 'node' if old else 'root', .1 if old else 0, empty)
        moved[old] = nd['name']
        for it in nd['items']:
            name(it, 'field')
            for o in it['opts']:
                name(o, 'option')
    for nd in g['nodes']:
        nd['items'] = list({it['name']: it for it in nd['items']}.values())
    c = {'names': names, 'refused': False, 'errors': []}
    if len({id(x) for nd in g['nodes'] for x in nd['items']}) + \
            sum(len(x['opts']) for nd in g['nodes'] for x in nd['items']) + \
            len(g['nodes']) != len(names) or \
            len(set(moved.values())) != len(moved):
        return None
    for nd in g['nodes']:
        for it in nd['items']:
            rename(it['type'], moved)
    try:
        real = graphs({'g': g, 'hasmut': False})[0]
    except Exception:
        return None       # not a graph at all
    cls = AsyncGraphQLIntrospection if r.random() < .5 else GraphQLIntrospection
    try:
        apply(real, [cls(real)])
    except ValueError as e:
        c['refused'] = True
        c['errors'] = str(e).split('\n- ')[1:]
    return c


def rename(t, moved):
    if t['k'] == 'ref':
        t['s'] = moved.get(t['s'], t['s'])
    for x in t['a']:
        rename(x, moved)


def run(check, recipe=None):
    args = []
    if recipe is None:
        res = tlc.run('HikuSchemaMC', MC % (1 if check.tier == 'quick' else 2))
        check.tlc(res)
        if res.violated:
            raise RuntimeError('specification is broken\n' + res.out[-2000:])
        args = [{'c': x, 'async': n % 4 == 0}
                for n, x in enumerate(res.tagged('SCHEMA'))]
    cases.run(check, recipe, 'HikuSchemaCases', small, args,
              count='enumerated')
    cases.run(check, recipe, 'HikuSchemaCases', rand,
              [{'seed': check.seed * 49979687 + k}
               for k in range(check.n(1200, 15000))])
    cases.run(check, recipe, 'HikuSchemaCases', odd,
              [{'seed': check.seed * 49979687 + k}
               for k in range(check.n(1200, 15000))], count='names')
