"""C22: the developer console."""
import copy
import json
import random
import re
from io import BytesIO

from hiku.console.ui import ConsoleApplication
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.executors.threads import ThreadsExecutor
from hiku.export.simple import export
from hiku.graph import apply, GraphTransformer
from hiku.query import Node, QueryTransformer, merge

from .. import cases
from . import c12, c13
from .c12 import qjson, vt
from .c18 import ThreadPoolExecutor, distinct
from .c19 import write

MODULE = 'HikuConsoleCases'


class NoAlias(QueryTransformer):

    def visit_field(self, obj):
        return obj.copy(alias=None)

    def visit_link(self, obj):
        return super(NoAlias, self).visit_link(obj).copy(alias=None)


class Describe(GraphTransformer):
    """descriptions of the specification"""

    def __init__(self, g):
        self.nodes = {n['name']: n for n in g['nodes']}

    def visit_node(self, obj):
        return self.described(super(Describe, self).visit_node(obj))

    def visit_root(self, obj):
        return self.described(super(Describe, self).visit_root(obj))

    def described(self, obj):
        n = self.nodes[obj.name or '']
        if n['name']:
            obj.description = n['desc'] or None
        for it, f in zip(n['items'], obj.fields):
            f.description = it['desc'] or None
        return obj


class Broken(Exception):
    pass


def failing(obj):
    def load(*args):
        raise Broken('loader')
    return load


class Fail(GraphTransformer):
    """loaders of the root fail"""

    def visit_root(self, obj):
        obj = super(Fail, self).visit_root(obj)
        for f in obj.fields:
            f.func = failing(f.func)
        return obj


def send(app, req, body, length):
    stream = BytesIO(body)
    env = {'REQUEST_METHOD': req['method'], 'PATH_INFO': req['path'],
           'SCRIPT_NAME': req['script'], 'wsgi.input': stream}
    if length is not None:
        env['CONTENT_LENGTH'] = length
    got = []

    def start_response(status, headers, exc_info=None):
        got.append((status, dict(headers)))
    out = {'status': 0, 'length': False, 'kind': 'raised', 'v': vt(None),
           'words': []}
    try:
        content = b''.join(app(env, start_response))
    except Exception as e:
        out['kind'] = repr(e)[:200]
        return out
    if len(got) != 1:
        return out
    status, headers = got[0]
    out['status'] = int(status.split()[0])
    out['length'] = headers.get('Content-Length') == str(len(content))
    if not length:
        # nothing of the body belongs to the request
        out['length'] = out['length'] and stream.tell() == 0
    ctype = headers.get('Content-Type', '')
    text = content.decode('utf-8')
    if ctype.startswith('application/json'):
        data = json.loads(text)
        if isinstance(data, dict) and set(data) == {'traceback'}:
            out['kind'] = 'traceback'
            out['words'] = [] if data['traceback'] is None else ['traceback']
        elif isinstance(data, dict) and set(data) == {'errors'} and \
                out['status'] != 200:
            out['kind'] = 'errors'
            out['words'] = [str(e)[:200] for e in data['errors']]
        else:
            out['kind'] = 'data'
            out['v'] = vt(data)
    elif ctype.startswith('text/html'):
        out['kind'] = 'html'
        out['words'] = re.findall(r'[\'"]([^\'"]*)[\'"]', text)
    elif ctype.startswith('text/javascript'):
        out['kind'] = 'js'
    elif ctype.startswith('text/plain'):
        out['kind'] = 'text'
    elif not ctype:
        out['kind'] = 'docs'
        if text.endswith('\n'):
            out['words'] = text[:-1].split('\n') if text != '\n' else []
    return out


def described(r, g):
    for n in g['nodes']:
        n['desc'] = r.choice(['', '', 'a node', 'é ; x'])
        for it in n['items']:
            it['desc'] = '' if it['type']['k'] in ('any', 'none') else \
                r.choice(['', '', 'some thing'])
    return g


def nested(x, depth):
    """any type"""
    r = x.r
    k = r.choice(['bool', 'str', 'int', 'float', 'any', 'ref'] +
                 ['opt', 'seq', 'map', 'rec'] * (2 if depth else 0))
    if k == 'ref':
        return c12.ty('ref', s=r.choice(x.names))
    if k in ('opt', 'seq'):
        return c12.ty(k, [nested(x, depth - 1)])
    if k == 'map':
        return c12.ty(k, [c12.ty(r.choice(['str', 'int', 'bool'])),
                          nested(x, depth - 1)])
    if k == 'rec':
        ns = r.sample(['a', 'b', 'c'], r.randint(1, 3))
        return c12.ty(k, [nested(x, depth - 1) for _ in ns], ns)
    return c12.ty(k)


def docs(arg):
    """documentation of fields of any type"""
    r = random.Random(arg['seed'])
    x = c12.R(r)
    x.bad = False
    g = x.graph()
    for n in g['nodes']:
        for it in n['items']:
            if it['k'] == 'f':
                it['type'] = nested(x, r.randint(0, 4))
    for d in g['dts']:
        if r.random() < .4:
            d['type'] = nested(x, r.randint(1, 3))
    g = described(r, g)
    app = ConsoleApplication(apply(c12.graph(g), [Describe(g)]),
                             Engine(SyncExecutor()))
    req = {'method': 'GET', 'path': '/docs', 'script': '', 'kind': 'query',
           'q': {'ord': False, 'fields': []}}
    return {'f': [], 'l': [], 'g': g, 'debug': False, 'reqs': [req],
            'outs': [send(app, req, b'', None)]}


def mistake(r, text):
    """no value, or no query"""
    return r.choice([
        lambda: text[:-1].encode(), lambda: text.encode() + b']',
        lambda: b'', lambda: b'\xff' + text.encode(), lambda: b'{}',
        lambda: b':a', lambda: b'[a]', lambda: b'[:a "b"]',
        lambda: text.encode() + b' :a', lambda: b'["' + text.encode(),
        lambda: b'nil', lambda: b'(' + text.encode() + b')'])()


def rand(arg):
    r = random.Random(arg['seed'])
    x = c12.R(r)
    x.bad = False
    g = described(r, c13.requires(x.graph(), r))
    t = c13.Tables(g, arg['seed'], False)
    t.ctx = arg['seed'] if r.random() < .6 else None
    ctx = {'token': arg['seed']} if t.ctx else r.choice([None, {}])
    graph = apply(t.graph(), [Describe(g)])
    debug = r.random() < .5
    executor = r.choice([SyncExecutor, lambda: ThreadsExecutor(
        ThreadPoolExecutor(2))])()
    engine = Engine(executor)
    app = ConsoleApplication(graph, engine, ctx, debug)
    bad = ConsoleApplication(apply(graph, [Fail()]), engine, ctx=ctx,
                             debug=debug)
    reqs, outs, sent = [], [], []
    x.g = g
    for _ in range(r.randint(1, 6)):
        x.bad = r.random() < .2
        x.deadend = False
        req = {'method': r.choice(['POST'] * 12 + ['GET', 'GET', 'PUT',
                                                   'HEAD', 'DELETE']),
               'path': r.choice(['/'] * 14 + ['', '', '/docs', '/docs',
                                              '/console.js', '/nope',
                                              '/docs/', '//']),
               'script': r.choice(['', '', '/console', '/a/b']),
               'kind': 'query', 'q': {'ord': False, 'fields': []}}
        if req['method'] == 'GET' and req['path'] == '/console.js':
            # (made by a build of the console, not a part of the repository)
            continue
        body, length, to = b'', None, app
        if req['method'] == 'POST':
            q = merge([NoAlias().visit(x.sub('', r.randint(1, 3)))])
            js = qjson(q)
            if x.deadend or c12.whole(g, js) or \
                    not (x.bad or distinct(js)):
                continue
            req['q'] = js
            text = write(r, export(q))
            body = text.encode()
            k = r.random()
            if k < .15:
                req['kind'] = 'broken'
                body = mistake(r, text)
            elif k < .25:
                req['kind'] = 'fails'
                to = bad
            length = str(len(body))
            if k > .97:
                req['kind'] = 'big'
                length = str(2 ** 20 + r.choice([1, 1000]))
            elif k > .87 and req['kind'] == 'query' and k < .9:
                # no length, no request
                req['kind'] = 'broken'
                length = r.choice([None, '', '0'])
            elif k > .9:
                # (what follows is not a part of the request)
                body += b' ]'
        reqs.append(req)
        sent.append((to, req, body, length))
        outs.append(send(*sent[-1]))
    if not reqs:
        return []
    out = [dict(t.dump(), g=g, debug=debug, reqs=reqs, outs=outs)]
    if r.random() < .4:
        # the same requests when the data is other
        t.again(str(arg['seed']) + ' again')
        outs = [send(*x) for x in sent]
        out.append(dict(t.dump(), g=g, debug=debug, reqs=reqs, outs=outs))
    return out


def run(check, recipe=None):
    cases.run(check, recipe, MODULE, rand,
              [{'seed': check.seed * 49979687 + k}
               for k in range(check.n(4000, 40000))])
    cases.run(check, recipe, MODULE, docs,
              [{'seed': check.seed * 49979693 + k}
               for k in range(check.n(1500, 15000))], count='documents')
