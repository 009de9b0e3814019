"""C15: SQL sources."""
import asyncio
import random
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor

import sqlalchemy as sa
from sqlalchemy.pool import NullPool, StaticPool
from sqlalchemy.sql import elements, operators, visitors

from hiku.engine import Context, Engine
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.executors.sync import SyncExecutor
from hiku.executors.threads import ThreadsExecutor
from hiku.graph import Field, Graph, Link, Node, Nothing, Root
from hiku.query import Field as QF, Link as QL, Node as QN
from hiku.result import denormalize
from hiku.sources import aiopg, sqlalchemy as sync, sqlalchemy_async as asy
from hiku.types import Optional, Sequence, String, TypeRef

from .. import cases, tlc
from ..enc import enc
from .c12 import qjson, vt

MC = ('SPECIFICATION SSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxRows = %d '
      'MaxIds = %d FETCH = %d\nINVARIANTS Determined Columns Partition '
      'NullLess SelfLink Portions\n')

KEY = 'the engine'
TYPES = {'Integer': sa.Integer, 'Unicode': sa.Unicode, 'Float': sa.Float,
         'Boolean': sa.Boolean, 'BigInteger': sa.BigInteger,
         'SmallInteger': sa.SmallInteger, 'UnicodeText': sa.UnicodeText,
         'Date': sa.Date, 'String': sa.String, 'Text': sa.Text}


# -- a database --------------------------------------------------------------

class DB:
    """tables in sqlite; statements are counted"""

    def __init__(self, metadata, rows, threads=False):
        self.dir = None
        if threads:
            # a connection for everyone, connections are not thread-safe
            self.dir = tempfile.mkdtemp(prefix='hkv-')
            self.engine = sa.create_engine(
                'sqlite:///' + self.dir + '/db', poolclass=NullPool)
        else:
            self.engine = sa.create_engine('sqlite://', poolclass=StaticPool)
        metadata.create_all(self.engine)
        for table, rs in rows:
            if rs:
                self.engine.execute(table.insert(), rs)
        self.statements = 0
        sa.event.listen(self.engine, 'before_cursor_execute', self.count)

    def count(self, *args):
        self.statements += 1

    def close(self):
        self.engine.dispose()
        if self.dir:
            shutil.rmtree(self.dir)


def translate(expr):
    """= ANY (array)  ->  IN (..), which sqlite understands"""
    def replace(e):
        if isinstance(e, elements.BinaryExpression):
            for a, b in ((e.left, e.right), (e.right, e.left)):
                if isinstance(b, elements.CollectionAggregate) and \
                        b.operator is operators.any_op:
                    x = b.element
                    while isinstance(x, elements.Grouping):
                        x = x.element
                    if e.operator is operators.eq:
                        return a.in_(list(x.value))
                    raise ValueError('not the meaning of IN: %s' % e)
    return visitors.replacement_traverse(expr, {}, replace)


class Result:
    """result of a statement, read by portions"""

    def __init__(self, rows):
        self.rows = rows

    def _take(self, n):
        out, self.rows = self.rows[:n], self.rows[n:]
        return out

    async def fetchmany(self, size=None):
        await asyncio.sleep(0)
        return self._take(size or 1)

    async def fetchall(self):
        await asyncio.sleep(0)
        return self._take(len(self.rows))
    all = fetchall

    async def fetchone(self):
        return (self._take(1) or [None])[0]

    def __aiter__(self):
        return self

    async def __anext__(self):
        if not self.rows:
            raise StopAsyncIteration
        return self._take(1)[0]

    def close(self):
        pass


class Conn:
    def __init__(self, owner):
        self.owner = owner

    async def __aenter__(self):
        await asyncio.sleep(0)
        self.owner.open += 1
        return self

    async def __aexit__(self, *args):
        self.owner.open -= 1

    async def execute(self, expr, *args):
        await asyncio.sleep(0)
        o = self.owner
        with o.db.engine.connect() as c:
            rows = c.execute(translate(expr)).fetchall()
        o.rand.shuffle(rows)
        o.got = [tuple(r) for r in rows]
        return Result(rows)
    stream = execute


class Async:
    """stands for engines of aiopg and of asynchronous SQLAlchemy"""

    def __init__(self, db, seed):
        self.db, self.rand = db, random.Random(seed)
        self.got, self.open = [], 0

    def acquire(self):
        return Conn(self)
    connect = acquire


class Ctx:
    def __init__(self, db):
        self.db = db

    def __getitem__(self, key):
        if key != KEY:
            raise KeyError(key)
        return self.db


FLAVORS = {'sync': (sync.FieldsQuery, sync.LinkQuery),
           'async': (asy.FieldsQuery, asy.LinkQuery),
           'aiopg': (aiopg.FieldsQuery, aiopg.LinkQuery)}


def finish(x):
    return asyncio.run(x) if asyncio.iscoroutine(x) else x


# -- direct calls -------------------------------------------------------------

def table_rows(t):
    return {'cols': t['cols'],
            'rows': [[enc(v) for v in r] for r in t['rows']]}


def make_table(t, name='t', metadata=None):
    metadata = metadata or sa.MetaData()
    cols = []
    for c in t['cols']:
        vals = [r[t['cols'].index(c)] for r in t['rows']]
        text = t.get('text', {}).get(c)
        if text is None:
            text = any(isinstance(v, str) for v in vals)
        cols.append(sa.Column(c, sa.Unicode if text else sa.Integer,
                              primary_key=c == t.get('pk'),
                              autoincrement=False))
    return sa.Table(name, metadata, *cols)


def call_fields(flavor, db, source, t, pk, fields, ids, seed=0):
    c = {'kind': 'fields', 't': table_rows(t), 'pk': pk, 'fields': fields,
         'ids': [enc(i) for i in ids], 'out': [], 'err': '', 'stmts': 0}
    eng = db.engine if flavor == 'sync' else Async(db, seed)
    before = db.statements
    given = list(ids)
    try:
        out = finish(source(Ctx(eng), [QF(f) for f in fields], given))
        c['out'] = [[enc(v) for v in row] for row in out]
        if given != ids:
            c['err'] = 'identifiers are changed'
    except Exception as e:
        c['err'] = '%s: %s' % (type(e).__name__, str(e)[:200])
    c['stmts'] = db.statements - before
    return c


LINKS = {'one': TypeRef['x'], 'maybe': Optional[TypeRef['x']],
         'many': Sequence[TypeRef['x']]}


def call_link(flavor, db, source, t, frm, to, mode, ids, seed=0):
    c = {'kind': 'link', 't': table_rows(t), 'from': frm, 'to': to,
         'mode': mode, 'ids': [enc(i) for i in ids], 'out': [], 'err': '',
         'got': [], 'stmts': 0}
    eng = db.engine if flavor == 'sync' else Async(db, seed)
    before = db.statements
    given = list(ids)
    try:
        g = Graph([Node('x', []), Node('y', [
            Field('q', None, lambda *a: None),
            Link('l', LINKS[mode], source, requires='q')])])
        func = g.nodes_map['y'].fields_map['l'].func
        out = finish(func(Ctx(eng), given))
        for o in out:
            c['out'].append([enc(x) for x in o] if mode == 'many' else
                            [] if o is Nothing else [enc(o)])
        if given != ids:
            c['err'] = 'identifiers are changed'
    except Exception as e:
        c['err'] = '%s: %s' % (type(e).__name__, str(e)[:200])
    c['stmts'] = db.statements - before
    if flavor != 'sync':
        c['got'] = [[enc(v) for v in r] for r in eng.got]
        if c['stmts'] == 0:
            c['got'] = []
    return c


def unenc(s):
    return None if s == 'null' else int(s[2:]) if s[:2] == 'i:' else s[2:]


def small(arg):
    """every small table"""
    t = {'cols': arg['t']['cols'],
         'rows': [[unenc(v) for v in r] for r in arg['t']['rows']],
         'pk': 'id'}
    ids = [unenc(i) for i in arg['ids']]
    table = make_table(t)
    db = DB(table.metadata, [(table, [dict(zip(t['cols'], r))
                                      for r in t['rows']])])
    out = []
    try:
        k = sum(map(hash, map(str, arg['t']['rows'])), len(ids))
        for n, flavor in enumerate(FLAVORS):
            fq, lq = FLAVORS[flavor]
            f = fq(KEY, table)
            keys = [i for i in ids if i is not None]
            out.append(call_fields(flavor, db, f, t, 'id',
                                   [['id', 'f'], ['f', 'id'], ['f']][
                                       (len(t['rows']) + len(ids) + n) % 3],
                                   keys, n))
            for frm, to in (('f', 'id'), ('id', 'id')):
                lk = lq(KEY, from_column=table.c[frm], to_column=table.c[to])
                for mode in LINKS:
                    out.append(call_link(flavor, db, lk, t, frm, to, mode,
                                         ids, n))
    finally:
        db.close()
    return out


def rcell(r, text, null=True):
    if null and r.random() < .15:
        return None
    if text:
        return r.choice(['', 'a', 'b', 'c', 'A', '0', 'a b', "q'uote", '%s',
                         'é', 'null'])
    return r.choice([0, 1, 2, 3, -1, 5, 10 ** 6])


def distinct(r, text, n):
    pool = ['', 'a', 'b', 'c', 'A', '0', 'é', "q'"] if text else \
        [0, 1, 2, 3, 4, -1, 7, 10 ** 9]
    if n > len(pool):
        pool = list(map(str, range(n + 5))) if text else range(n + 5)
    return r.sample(pool, n)


def rtable(r, rows=None):
    text = {'id': r.random() < .3, 'a': r.random() < .5,
            'b': r.random() < .5, 'c': False}
    cols = ['id', 'a', 'b', 'c']
    r.shuffle(cols)
    n = r.choice([0, 1, 2, 3, 5, 8]) if rows is None else rows
    keys = distinct(r, text['id'], n)
    return {'cols': cols, 'text': text, 'pk': 'id', 'rows': [
        [k if c == 'id' else rcell(r, text[c]) for c in cols] for k in keys]}


def sample_ids(r, t, col, big=False):
    vals = [row[t['cols'].index(col)] for row in t['rows']]
    vals = [v for v in vals if v is not None]
    missing = ['zz', 'B'] if t['text'][col] else [99, -7]
    if big:
        ids = sorted(set(vals), key=str)
        r.shuffle(ids)
        return ids + r.sample(missing, 1)
    return [r.choice((vals or missing) if r.random() < .8 else missing)
            for _ in range(r.choice([0, 1, 2, 3, 5, 9]))]


def otherwise(r, t, dup):
    """the table with some rows changed, without others, with a new one"""
    rows = [list(x) for x in t['rows'] if r.random() < .8]
    have = {x[t['cols'].index('id')] for x in rows}
    new = [i for i in distinct(r, t['text']['id'], 3) if i not in have]
    rows += [[i if c == 'id' else None for c in t['cols']] for i in new[:1]]
    for x in rows:
        for k, c in enumerate(t['cols']):
            if c != 'id' and (r.random() < .4 or x[k] is None and c == dup):
                x[k] = rcell(r, t['text'][c], c != dup)
    return dict(t, rows=rows)


def fill(db, table, rows):
    db.engine.execute(table.delete())
    if rows:
        db.engine.execute(table.insert(), rows)


def rand(arg):
    r = random.Random(arg['seed'])
    out = []
    big = arg.get('rows')
    t = rtable(r, big)
    if big:
        # few values with many rows each
        for c in r.sample(['a', 'b', 'c'], 2):
            pool = [rcell(r, t['text'][c]) for _ in range(r.randint(1, 3))]
            for row in t['rows']:
                row[t['cols'].index(c)] = r.choice(pool)
    # links may lead to values of any column, more than once
    dup = r.choice(['id', 'a', 'b'])
    k = t['cols'].index(dup)
    for row in t['rows']:
        if row[k] is None:
            row[k] = rcell(r, t['text'][dup], False)
    table = make_table(t)
    db = DB(table.metadata, [(table, [dict(zip(t['cols'], x))
                                      for x in t['rows']])])
    try:
        for flavor, (fq, lq) in FLAVORS.items():
            if big and flavor == 'sync':
                continue
            kind = r.choice(['table', 'alias', 'pk', 'subquery'])
            src, names, pk = table, {}, 'id'
            if kind == 'alias':
                src = table.alias('other')
            if kind == 'subquery':
                src = sa.select([table]).alias('sub')
            if kind == 'table':
                f = fq(KEY, src)
            elif kind == 'pk':
                # any column may serve as a key
                pk = r.choice(t['cols'])
                f = fq(KEY, src, primary_key=src.c[pk])
            else:
                f = fq(KEY, src, primary_key=src.c.id)
            calls = []

            def call(fn, *args):
                calls.append((fn, args))
                out.append(fn(flavor, db, args[0], t, *args[1:],
                              arg['seed']))
            for _ in range(1 if big else 2):
                fields = [r.choice(t['cols']) for _ in range(r.randint(1, 4))]
                ids = sample_ids(r, t, pk, big)
                call(call_fields, f, pk, fields, ids)
            frm, to = r.choice(t['cols']), r.choice(['id', dup])
            # few objects with many rows
            few = r.random() < .5
            if few:
                frm = r.choice([c for c in t['cols'] if c != 'id'])
            lk = lq(KEY, from_column=src.c[frm], to_column=src.c[to])
            for mode in LINKS:
                ids = sample_ids(r, t, frm, big and not few)
                if few and len(ids) > 1 and r.random() < .5:
                    ids = ids[:1]
                if r.random() < .4:
                    ids.insert(r.randint(0, len(ids)), None)
                call(call_link, lk, frm, to, mode, ids)
            if r.random() < .5:
                # the same again when the data is other
                t2 = otherwise(r, t, dup)
                rows = [dict(zip(t['cols'], x)) for x in t2['rows']]
                db2 = db
                if r.random() < .5:
                    db2 = DB(table.metadata, [(table, rows)])
                else:
                    fill(db, table, rows)
                try:
                    for fn, args in calls:
                        out.append(fn(flavor, db2, args[0], t2, *args[1:],
                                      arg['seed']))
                finally:
                    if db2 is db:
                        fill(db, table, [dict(zip(t['cols'], x))
                                         for x in t['rows']])
                    else:
                        db2.close()
    finally:
        db.close()
    return out


# -- joins ---------------------------------------------------------------------

def joined(arg):
    """FieldsQuery on two tables, joined"""
    r = random.Random(arg['seed'])
    md = sa.MetaData()
    a, b = rtable(r), rtable(r)
    a['text']['c'] = b['text']['id']
    for row in a['rows']:
        ids = [x[b['cols'].index('id')] for x in b['rows']]
        row[a['cols'].index('c')] = r.choice(ids + [None])
    ta, tb = make_table(a, 'ta', md), make_table(b, 'tb', md)
    db = DB(md, [(tab, [dict(zip(t['cols'], x)) for x in t['rows']])
                 for tab, t in ((ta, a), (tb, b))])
    outer = r.random() < .5
    src = ta.join(tb, ta.c.c == tb.c.id, isouter=outer)
    cols = ['ta_' + c for c in a['cols']] + ['tb_' + c for c in b['cols']]
    rows = []
    for x in a['rows']:
        key = x[a['cols'].index('c')]
        m = [y for y in b['rows'] if key is not None and
             y[b['cols'].index('id')] == key]
        if not m and outer:
            m = [[None] * len(b['cols'])]
        rows += [x + y for y in m]
    t = {'cols': cols, 'rows': rows, 'text': {'ta_id': a['text']['id']}}
    out = []
    try:
        for flavor, (fq, lq) in FLAVORS.items():
            f = fq(KEY, src, primary_key=ta.c.id)
            fields = [r.choice(cols) for _ in range(r.randint(1, 4))]
            ids = sample_ids(r, t, 'ta_id')
            out.append(call_fields(flavor, db, f, t, 'ta_id', fields, ids,
                                   arg['seed']))
    finally:
        db.close()
    return out


# -- whole executions -------------------------------------------------------------

def execute(arg):
    r = random.Random(arg['seed'])
    md = sa.MetaData()
    A, B = rtable(r), rtable(r)
    A['text']['c'] = B['text']['id']
    total = r.random() < .4      # One links need all targets
    bids = [x[B['cols'].index('id')] for x in B['rows']]
    for row in A['rows']:
        row[A['cols'].index('c')] = r.choice(
            (bids or [None]) if total else bids + [None])
    ta, tb = make_table(A, 'ta', md), make_table(B, 'tb', md)
    flavor = r.choice(list(FLAVORS))
    threads = flavor == 'sync' and r.random() < .3
    fq, lq = FLAVORS[flavor]
    fa, fb = fq(KEY, ta), fq(KEY, tb)
    to_a = lq(KEY, from_column=ta.c.c, to_column=ta.c.id)
    to_b = lq(KEY, from_column=tb.c.id, to_column=tb.c.id)
    mode = 'one' if total else 'maybe'
    # an extra link between equal values of a column
    a_self = lq(KEY, from_column=ta.c.b, to_column=ta.c.id)

    def aids(ids):
        async def f():
            return list(ids)
        return (lambda: list(ids)) if flavor == 'sync' else f
    ida, idb = sample_ids(r, A, 'id'), sample_ids(r, B, 'id')
    if total:
        have = [x[A['cols'].index('id')] for x in A['rows']
                if x[A['cols'].index('c')] is not None]
        if r.random() < .8:
            ida = [i for i in ida if i in have]
    graph = Graph([
        Node('A', [Field(c, None, fa) for c in A['cols']] + [
            Link('to_b', TypeRef['B'] if total else Optional[TypeRef['B']],
                 to_b, requires='c'),
            Link('same', Sequence[TypeRef['A']], a_self, requires='b')]),
        Node('B', [Field(c, None, fb) for c in B['cols']] + [
            Link('from_a', Sequence[TypeRef['A']], to_a, requires='id')]),
        Root([Link('as_', Sequence[TypeRef['A']], aids(ida), requires=None),
              Link('bs', Sequence[TypeRef['B']], aids(idb), requires=None)]),
    ])

    def sub(node, depth):
        fs, seen = [], set()
        for _ in range(r.randint(1, 4)):
            links = {'A': [('to_b', 'B'), ('same', 'A')],
                     'B': [('from_a', 'A')]}[node]
            if depth and r.random() < .5:
                name, to = r.choice(links)
                f = QL(name, sub(to, depth - 1),
                       alias=r.choice([None, None, 'x']))
            else:
                f = QF(r.choice(['id', 'a', 'b', 'c']),
                       alias=r.choice([None, None, 'y']))
            if (f.alias or f.name) not in seen:
                seen.add(f.alias or f.name)
                fs.append(f)
        return QN(fs)
    q = QN([QL('as_', sub('A', 2)), QL('bs', sub('B', 2))][
        :r.choice([1, 2])])
    db = DB(md, [(tab, [dict(zip(t['cols'], x)) for x in t['rows']])
                 for tab, t in ((ta, A), (tb, B))], threads)
    TA, TB = table_rows(A), table_rows(B)
    nodes = [
        {'name': 'A', 't': TA, 'pk': 'id', 'links': [
            {'name': 'to_b', 'to': 'B', 'req': 'c', 't': TB, 'from': 'id',
             'tocol': 'id', 'mode': mode},
            {'name': 'same', 'to': 'A', 'req': 'b', 't': TA, 'from': 'b',
             'tocol': 'id', 'mode': 'many'}]},
        {'name': 'B', 't': TB, 'pk': 'id', 'links': [
            {'name': 'from_a', 'to': 'A', 'req': 'id', 't': TA, 'from': 'c',
             'tocol': 'id', 'mode': 'many'}]}]
    c = {'kind': 'graph', 'nodes': nodes, 'q': qjson(q), 'err': '',
         'root': [{'name': 'as_', 'to': 'A', 'ids': [enc(i) for i in ida]},
                  {'name': 'bs', 'to': 'B', 'ids': [enc(i) for i in idb]}],
         'v': vt(None)}
    try:
        if flavor == 'sync':
            with ThreadPoolExecutor(2) as pool:
                eng = Engine(ThreadsExecutor(pool) if threads
                             else SyncExecutor())
                res = eng.execute(graph, q, {KEY: db.engine})
        else:
            fake = Async(db, arg['seed'])

            async def go():
                eng = Engine(AsyncIOExecutor())
                return await eng.execute(graph, q, {KEY: fake})
            res = asyncio.run(asyncio.wait_for(go(), 20))
            if fake.open:
                c['err'] = 'connections are not given back'
        if not c['err']:
            c['v'] = vt(denormalize(graph, res))
    except Exception as e:
        c['err'] = '%s: %s' % (type(e).__name__, str(e)[:200])
    finally:
        db.close()
    return c


# -- types -------------------------------------------------------------------------

def types(arg):
    col, given = arg['col'], arg['given']
    md = sa.MetaData()
    sa.Table('other', md, sa.Column('id', sa.Integer, primary_key=True))
    typ = sa.ForeignKey('other.id') if col == 'FK' else \
        TYPES[col](arg['len']) if arg['len'] else TYPES[col]
    t = sa.Table('t', md, sa.Column('id', sa.Integer, primary_key=True),
                 sa.Column('x', typ))
    f = FLAVORS[arg['flavor']][0](KEY, t)
    c = {'kind': 'type', 'col': col, 'given': given, 'type': '', 'err': ''}
    g = Graph([Node('n', [Field('x', {'': None, 'String': String,
                                      'Opt': Optional[String]}[given], f)])])
    typ = g.nodes_map['n'].fields_map['x'].type
    c['type'] = 'Opt' if typ == Optional[String] else repr(typ)
    return c


def run(check, recipe=None):
    args = []
    if recipe is None:
        small_ = (2, 2, 1) if check.tier == 'quick' else (3, 3, 2)
        res = tlc.run('HikuSQLMC', MC % small_)
        check.tlc(res)
        if res.violated:
            raise RuntimeError('specification is broken\n' + res.out[-2000:])
        args = res.tagged('TABLE')
    mod = 'HikuSQLCases'
    cases.run(check, recipe, mod, small, args, count='enumerated')
    cases.run(check, recipe, mod, types,
              [{'col': c, 'given': g, 'flavor': f, 'len': n}
               for c in list(TYPES) + ['FK'] for g in ('', 'String', 'Opt')
               for f in FLAVORS for n in (0, 20)
               if not n or c in ('String', 'Unicode')], count='types')
    s = check.seed * 32452843
    cases.run(check, recipe, mod, rand,
              [{'seed': s + k} for k in range(check.n(400, 8000))],
              count='calls')
    # around the size of portions
    sizes = [99, 100, 101, 199, 200, 201, 250, 700]
    cases.run(check, recipe, mod, rand,
              [{'seed': s + k, 'rows': n} for n in sizes
               for k in range(check.n(3, 20))], count='large_calls')
    cases.run(check, recipe, mod, joined,
              [{'seed': s + k} for k in range(check.n(200, 4000))],
              count='joins')
    cases.run(check, recipe, mod, execute,
              [{'seed': s + k} for k in range(check.n(600, 10000))],
              count='executions')
