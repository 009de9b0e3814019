"""C20: queries mean the same in every notation."""
import copy
import random
from fractions import Fraction

from google.protobuf.json_format import ParseDict
from graphql.language.printer import print_ast

from hiku.builder import Q, build
from hiku.edn import Dict, Keyword, List, Set, Symbol, Tuple, dumps
from hiku.export import graphql as to_graphql
from hiku.export import protobuf as to_protobuf
from hiku.export import simple as to_simple
from hiku.protobuf import query_pb2
from hiku.query import Field, Link, Node, merge
from hiku.readers import graphql as from_graphql
from hiku.readers import protobuf as from_protobuf
from hiku.readers import simple as from_simple

from .. import cases, qenc
from ..enc import enc
from .c19 import write

MODULE = 'HikuNotationCases'
NAMES = ['a', 'b', 'c', 'foo', '_x', 'Zz9', 'a_b']
STRINGS = ['', 'x', 'a b', '"', '\\', '\n', '\t', 'é', 'Я"я', '\u2028',
           '\U0001f600', '\x00', '\x7f', '"""', '#', ';', '{}', '$a',
           '\\u0041', 'true', 'null', '\\n', '  x\n  y ']
NOTHING = {'ord': False, 'fields': []}


def plain(v):
    """kinds of sequences and mappings do not matter"""
    if isinstance(v, list) or type(v) is List:
        return [plain(x) for x in v]
    if type(v) is Tuple:
        return tuple(plain(x) for x in v)
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (Set, set, frozenset)):
        return {plain(x) for x in v}
    return v


def floats(v):
    if isinstance(v, list):
        return [floats(x) for x in v]
    if isinstance(v, dict):
        return {k: floats(x) for k, x in v.items()}
    return float(v) if type(v) is int else v


def numbers(v):
    """numbers are equal whatever their types are"""
    if isinstance(v, (list, tuple)):
        return [numbers(x) for x in v]
    if isinstance(v, dict):
        return {k: numbers(x) for k, x in v.items()}
    if isinstance(v, (bool, int, float)):
        return '=' + str(Fraction(v))
    return v


def opts(o, fn=plain):
    return [[k, enc(fn(plain(v)))] for k, v in (o or {}).items()]


def query(q, fn=plain):
    return {'ord': bool(q.ordered), 'fields': [
        {'k': 'l' if type(f) is Link else 'f', 'name': f.name,
         'alias': f.alias or '', 'opts': opts(f.options, fn),
         'node': query(f.node, fn) if type(f) is Link else NOTHING}
        for f in q.fields]}


def got(fn, conv=plain):
    try:
        return {'ok': True, 'q': query(fn(), conv)}
    except Exception as e:
        return {'ok': False, 'q': NOTHING, 'err': repr(e)[:200]}


# options

def value(r, depth):
    k = r.randint(0, 9 if depth else 6)
    if k == 0:
        return None
    if k == 1:
        return r.random() < .5
    if k == 2:
        return r.choice([0, 1, 2, -3, 7, 2 ** 31, -2 ** 53,
                         2 ** 53 + 1, 10 ** 25 + 1])
    if k == 3:
        return r.choice([0., 1., 2., .5, -2.25, 1e20, 3e-07, 1.5e300, .1, 1 / 3,
                         5e-324, 123456789.123456789])
    if k < 7:
        return r.choice(STRINGS)
    if k == 7:
        return {r.choice(NAMES): value(r, depth - 1)
                for _ in range(r.randint(0, 3))}
    return [value(r, depth - 1) for _ in range(r.randint(0, 3))]


def options(r):
    if r.random() < .5:
        return r.choice([None, None, None, {}])
    return {k: value(r, 2) for k in r.sample(NAMES, r.randint(1, 3))}


# queries and their exports

def node(r, depth, empty):
    out = []
    for _ in range(r.randint(0 if empty else 1, 4)):
        name = r.choice(NAMES)
        alias = r.choice([None, None, None, 'x', 'b'])
        if depth and r.random() < .45:
            out.append(Link(name, node(r, depth - 1, empty), options(r),
                            alias))
        else:
            out.append(Field(name, options(r), alias))
    return Node(out)


def exports(r):
    # (graphql-core does not read the pairs of surrogates it writes)
    q = None
    while q is None or '1F600' in str(query(q)):
        q = node(r, r.randint(0, 3), False)
    e = node(r, r.randint(0, 3), True)
    # sets are written in EDN only
    ns = node(r, r.randint(0, 2), True)
    for f in ns.fields:
        if r.random() < .3:
            f.options = dict(f.options or {}, s=r.choice([set, frozenset])(
                r.sample(STRINGS, r.randint(0, 3))))
    for what, x, fn, conv in [
            ('edn', ns, lambda: from_simple.read(
                dumps(to_simple.export(ns))), plain),
            ('edn', e, lambda: from_simple.read(
                dumps(to_simple.export(e))), plain),
            ('edn', e, lambda: from_simple.transform(
                to_simple.export(e)), plain),
            ('pb', e, lambda: from_protobuf.read(
                to_protobuf.export(e).SerializeToString()), floats),
            ('graphql', q, lambda: from_graphql.read(
                print_ast(to_graphql.export(q))), plain)]:
        before = query(x)
        res = got(fn, conv)
        yield {'what': 'export', 'aliases': what == 'graphql',
               'q': query(x, conv), 'got': res,
               'kept': query(x) == before}


# EDN queries, right and wrong

def ednopts(r):
    out = {}
    for _ in range(r.randint(0, 3)):
        k = Keyword(r.choice(NAMES))
        if r.random() < .03:
            k = r.choice(['a', 2, Symbol('a'), None])
        out[k] = ednvalue(r, 2)
    return Dict(out)


def ednvalue(r, depth):
    v = value(r, 0)
    k = r.random()
    if k < .1:
        return r.choice([Keyword('k'), Symbol('s'), Set(['x', 'y']),
                         Tuple([2, 'x'])])
    if depth and k < .3:
        return List(ednvalue(r, depth - 1) for _ in range(r.randint(0, 3)))
    if depth and k < .5:
        return Dict((k, ednvalue(r, depth - 1)) for k in r.sample(
            [Keyword(n) for n in NAMES] + [7, -1, 'x y', ''] * (k < .35),
            r.randint(0, 3)))
    return v


def ednname(r):
    k = Keyword(r.choice(NAMES))
    x = r.random()
    if x < .03:
        return r.choice(['a', 2, None, True, Symbol('a'), List([k]),
                         Tuple([k]), Tuple([k, k]), Tuple([]),
                         Tuple([k, ednopts(r), 2]), Tuple(['a', ednopts(r)])])
    if x < .4:
        return Tuple([k, ednopts(r)])
    return k


def ednnode(r, depth):
    if r.random() < .02:
        return r.choice([Tuple([Keyword('a')]), Keyword('a'), None, 'a',
                         Dict([(Keyword('a'), List([]))]),
                         Set([Keyword('a')])])
    out = []
    for _ in range(r.randint(0, 4)):
        if depth and r.random() < .4:
            out.append(Dict((ednname(r), ednnode(r, depth - 1))
                            for _ in range(r.randint(0, 2))))
        else:
            out.append(ednname(r))
    return List(out)


def ednoption(v):
    """names of options in nested mappings are names"""
    if isinstance(v, dict):
        return {str(k) if isinstance(k, Keyword) else k: ednoption(x)
                for k, x in v.items()}
    if type(v) is List:
        return [ednoption(x) for x in v]
    return plain(v)


def edntree(v):
    t, s, c = 'atom', '', []
    if isinstance(v, Keyword):
        t, s = 'kw', str(v)
    elif type(v) in (List, Tuple):
        t, c = 'l' if type(v) is List else 't', list(map(edntree, v))
    elif isinstance(v, dict):
        t, c = 'd', [edntree(x) for kv in v.items() for x in kv]
    try:
        e = enc(ednoption(v))
    except TypeError:
        e = '?'
    return {'t': t, 's': s, 'c': c, 'v': e}


def edn(r):
    x = ednnode(r, r.randint(0, 3))
    text = write(r, x)
    return {'what': 'edn', 'x': edntree(x),
            'got': got(lambda: from_simple.read(text))}


# messages

def message(r, depth):
    items, pb = [], query_pb2.Node()
    for _ in range(r.randint(0, 4)):
        i = pb.items.add()
        k = r.random()
        name = r.choice(NAMES + (['', 'with space', 'é'] if k < .1 else []))
        x = {'k': 'none', 'name': '', 'opts': [],
             'node': {'items': []}}
        if k < .02:
            items.append(x)
            continue
        o = options(r)
        link = depth and r.random() < .4
        part = i.link if link else i.field
        part.SetInParent()
        part.name = name
        if o is not None:
            part.options.SetInParent()
            ParseDict(o, part.options)
        if link:
            sub, spb = message(r, depth - 1)
            part.node.CopyFrom(spb)
            x['node'] = sub
        x.update(k='link' if link else 'field',
                 name='' if not name else enc(name)[2:],
                 opts=opts(o, floats))
        items.append(x)
    return {'items': items}, pb


def escnames(q):
    return dict(q, fields=[dict(f, name=enc(f['name'])[2:],
                                node=escnames(f['node']))
                           for f in q['fields']])


def pb(r):
    x, msg = message(r, r.randint(0, 3))
    res = got(lambda: from_protobuf.read(msg.SerializeToString()), floats)
    return {'what': 'pb', 'x': x, 'got': dict(res, q=escnames(res['q']))}


# handles

def handle(r, depth, made):
    if made and r.random() < .25:
        # the same handle again, maybe with another alias
        x, h = r.choice(made)
        if r.random() < .5:
            alias = r.choice(['x', 'b'])
            return dict(x, alias=alias), getattr(Q, alias) << h
        return x, h
    name = r.choice(NAMES)
    alias = r.choice(['', '', 'x', 'b'])
    o = options(r)
    link = bool(depth) and r.random() < .4
    items, hs = [], []
    if link:
        for _ in range(r.randint(1, 3)):
            x, h = handle(r, depth - 1, made)
            items.append(x)
            hs.append(h)
    h = getattr(Q, name)
    steps = []
    if o is not None:
        steps.append(lambda h: h(**o))
    if link:
        steps.append(lambda h: h[tuple(hs)] if len(hs) > 1 or
                     r.random() < .5 else h[hs[0]])
    r.shuffle(steps)
    for step in steps:
        h = step(h)
    x = {'name': name, 'alias': '', 'opts': opts(o), 'items': items,
         'link': link}
    made.append((x, h))
    if alias:
        x, h = dict(x, alias=alias), getattr(Q, alias) << h
        made.append((x, h))
    return x, h


def builder(r):
    xs, hs, made = [], [], []
    for _ in range(r.randint(0, 4)):
        x, h = handle(r, r.randint(0, 3), made)
        xs.append(x)
        hs.append(h)
    return {'what': 'build', 'x': xs, 'got': got(lambda: build(hs))}


# equality

def exactly(q):
    """everything that makes a query different"""
    if isinstance(q, Node):
        return {'k': 'n', 'ord': q.ordered, 'fields': list(map(exactly,
                                                               q.fields))}
    x = {'k': 'l' if type(q) is Link else 'f', 'name': q.name,
         'alias': enc(q.alias), 'has': q.options is not None,
         'opts': sorted(opts(q.options, numbers)), 'ord': False,
         'fields': []}
    if type(q) is Link:
        x.update(ord=q.node.ordered, fields=list(map(exactly, q.node.fields)))
    return x


def again(q):
    """the same, made anew"""
    if isinstance(q, Node):
        return Node(list(map(again, q.fields)), ordered=q.ordered)
    o = copy.deepcopy(q.options)
    if o:
        o = dict(reversed(list(o.items())))
    if type(q) is Link:
        return Link(q.name, again(q.node), o, q.alias)
    return Field(q.name, o, q.alias)


def parts(q):
    yield q
    for f in q.fields if isinstance(q, Node) else \
            q.node.fields if type(q) is Link else []:
        yield from parts(f)


def changed(r, q):
    q = again(q)
    x = r.choice(list(parts(q)))
    if isinstance(x, Node):
        k = r.randint(0, 3)
        if k == 0:
            x.ordered = not x.ordered
        elif k == 1:
            x.fields.append(Field(r.choice(NAMES)))
        elif x.fields and k == 2:
            x.fields.pop(r.randrange(len(x.fields)))
        else:
            x.fields.reverse()
        return q
    k = r.randint(0, 3)
    if k == 0:
        x.name = r.choice(NAMES)
    elif k == 1:
        x.alias = r.choice([None, 'x', 'b'])
    elif k == 2:
        x.options = r.choice([None, {}, options(r)])
    else:
        ns = [n for n in parts(q) if not isinstance(n, Field)]
        n = r.choice(ns)
        fs = n.fields if isinstance(n, Node) else n.node.fields
        if fs:
            k = r.randrange(len(fs))
            f = fs[k]
            fs[k] = Link(f.name, Node([]), f.options, f.alias) \
                if isinstance(f, Field) else Field(f.name, f.options, f.alias)
    return q


def equal(r):
    a = node(r, r.randint(0, 2), True)
    b = again(a) if r.random() < .4 else changed(r, a)
    if r.random() < .2:
        a, b = r.choice(list(parts(a))), r.choice(list(parts(b)))
    return {'what': 'eq', 'a': exactly(a), 'b': exactly(b),
            'got': [a == b, b == a, not (a != b)]}


def rand(arg):
    r = random.Random(arg['seed'])
    out = list(exports(r))
    out += [equal(r) for _ in range(3)]
    for _ in range(3):
        out += [edn(r), pb(r)]
    out.append(builder(r))
    return out


def run(check, recipe=None):
    cases.run(check, recipe, MODULE, rand,
              [{'seed': check.seed * 32452843 + k}
               for k in range(check.n(800, 12000))])
