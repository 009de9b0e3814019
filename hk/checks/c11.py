"""C11: GraphQL documents."""
import copy
import random

from hiku.readers.graphql import read, read_operation

from .. import cases, qenc, tlc
from ..cases import Keep
from ..enc import enc, opts as enc_opts

MC = ('SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n'
      'CONSTANT Second = %s\n'
      'INVARIANTS SkipMeansAbsent InlineMeansBody SpreadMeansInline MustMay\n')

# -- values: a = {'t', 's', 'kk', 'c', 'text'} ---------------------------------

def X(v, text):
    return {'t': 'x', 's': enc(v), 'kk': [], 'c': [], 'text': text}


def string(r, s):
    if s and '\n' not in s and '"' not in s and '\\' not in s \
            and s.strip() == s and r.random() < .25:
        return '"""%s"""' % s
    out = []
    for ch in s:
        if ch == '\n':
            out.append('\\n')
        elif ch in '"\\':
            out.append('\\' + ch)
        elif ord(ch) < 0x10000 and r.random() < .08 or ord(ch) < 32:
            out.append('\\u%04x' % ord(ch))
        elif ch == '/' and r.random() < .5:
            out.append('\\/')
        else:
            out.append(ch)
    return '"%s"' % ''.join(out)


STRINGS = ['', 'a', 'foo bar', '0', 'true', 'null', '$v', '{ a }', '# x', 'é',
           'a"b', 'a\\b', 'l1\nl2', 'tab\tx', '/x/', '€', 'a,b', '...F', '😀']
FLOATS = ['1.0', '0.5', '-2.5', '1e3', '1.5E-2', '-0.25e+1', '0.0', '100.125']
NAMES = ['a', 'b', 'c', 'x1', '_y', 'type', 'on', 'query', 'fragment', 'true',
         'null', 'mutation', 'fooBar', '__typename']


def value(r, vars_, depth=2, const=False):
    x = r.random()
    if x < .3 and vars_ and not const:
        n = r.choice(vars_)
        return {'t': 'var', 's': n, 'kk': [], 'c': [], 'text': '$' + n}
    if depth and x < .4:
        c = [value(r, vars_, depth - 1, const) for _ in range(r.randint(0, 3))]
        return {'t': 'l', 's': '', 'kk': [], 'c': c, 'text': None}
    if depth and x < .5:
        ks = sorted(r.sample(['a', 'b', 'k', 'on'], r.randint(0, 3)))
        c = [value(r, vars_, depth - 1, const) for _ in ks]
        return {'t': 'd', 's': '', 'kk': ks, 'c': c, 'text': None}
    k = r.randrange(6)
    if k == 0:
        n = r.choice([0, 1, -1, -2, 2, 10, 123456, -0,
                      2 ** 53 + 1, -2 ** 63 - 1, 10 ** 30 + 1])
        return X(n, str(n))
    if k == 1:
        t = r.choice(FLOATS)
        return X(float(t), t)
    if k == 2:
        b = r.random() < .5
        return X(b, 'true' if b else 'false')
    if k == 3:
        return X(None, 'null')
    if k == 4:
        e = r.choice(['ONE', 'two', 'x', 'on', 'query'])
        return X(e, e)
    s = r.choice(STRINGS)
    return X(s, string(r, s))


# -- documents ------------------------------------------------------------------

class Doc:

    def __init__(self, r):
        self.r = r
        self.bad = r.random() < .25      # may contain mistakes
        self.bools = ['b1', 'b2']
        self.vars = ['v1', 'v2', 'v3'] + self.bools
        self.frags = ['F1', 'F2', 'on1', 'F3'][:r.randint(0, 4)]
        self.used = None

    def dirs(self):
        r = self.r
        out = []
        for name in r.choice([[], [], [], ['skip'], ['include'],
                              ['skip', 'include'], ['include', 'skip'],
                              ['other'], ['other', 'skip']]):
            v = r.random()
            if name == 'other':
                args = [['if', X(True, 'true')]] * r.randint(0, 1)
            else:
                if v < .4:
                    n = r.choice(self.bools)
                    if self.bad and r.random() < .05:
                        n = 'undef'
                    val = {'t': 'var', 's': n, 'kk': [], 'c': [],
                           'text': '$' + n}
                else:
                    b = (name == 'include') if v < .75 else r.random() < .5
                    val = X(b, 'true' if b else 'false')
                args = [['if', val]]
                if self.bad and r.random() < .07:
                    args = r.choice([[], [['unless', val]],
                                     [['if', val], ['x', val]]])
            out.append({'name': name, 'args': args})
        return out

    def sels(self, depth, frags, n=None):
        r = self.r
        return [self.sel(depth, frags)
                for _ in range(n or r.choice([1, 1, 2, 2, 3, 4]))]

    def sel(self, depth, frags):
        r = self.r
        x = {'name': '', 'alias': '', 'args': [], 'leaf': True, 'sel': [],
             'dirs': self.dirs()}
        k = r.random()
        if k < .2 and frags:
            x.update(k='spread', name=r.choice(frags))
        elif self.bad and k < .22:
            x.update(k='spread', name=r.choice(['F1', 'F2', 'F3', 'Undef']))
        elif k < .35 and depth:
            x.update(k='inline', sel=self.sels(depth - 1, frags))
        else:
            x.update(k='field', name=r.choice(NAMES[:5] if r.random() < .8
                                              else NAMES))
            if r.random() < .3:
                x['alias'] = r.choice(NAMES)
            if r.random() < .3:
                vs = self.vars + (['undef'] if self.bad and r.random() < .1
                                  else [])
                x['args'] = [[n, value(r, vs)] for n in
                             r.sample(['p', 'q', 'on', 'limit'],
                                      r.randint(1, 3))]
            if depth and r.random() < .45:
                x.update(leaf=False, sel=self.sels(depth - 1, frags))
        return x

    def op(self, kind, name):
        r = self.r
        vars_ = []
        for v in self.vars:
            if self.bad and r.random() < .03:
                continue
            b = v in self.bools
            has = r.random() < .5
            d = (X(b == 1, 'true') if False else
                 r.choice([X(True, 'true'), X(False, 'false')]) if b
                 else value(r, [], 1, const=True))
            nonnull = not has and r.random() < .3
            vars_.append({'name': v, 'nonnull': nonnull, 'has': has,
                          'def': d if has else X(None, 'null'),
                          'type': 'Boolean' if b else
                          r.choice(['Int', 'String', '[Int]', '[[Foo!]!]'])})
        r.shuffle(vars_)
        return {'kind': kind, 'name': name, 'vars': vars_,
                'sel': self.sels(3, self.frags)}

    def doc(self):
        r = self.r
        names = r.choice([[''], [''], ['Foo'], ['Foo', 'query'],
                          ['Foo', 'Bar', 'on'], ['Foo', '']])
        if self.bad and r.random() < .1:
            names = r.choice([[], ['Foo', 'Foo'], ['', '']])
        ops = [self.op(r.choice(['query', 'query', 'mutation', 'mutation',
                                 'subscription']), n) for n in names]
        frags = []
        for k, n in enumerate(self.frags):
            # fragments refer to the ones after them
            inner = self.frags[k + 1:]
            if self.bad and r.random() < .15:
                inner = self.frags
            frags.append({'name': n, 'sel': self.sels(2, inner)})
        if self.bad and frags and r.random() < .05:
            frags.append(dict(frags[0]))
        r.shuffle(frags)
        opname = r.choice(names) if names and (
            len(names) > 1 or r.random() < .5) else ''
        if self.bad and r.random() < .1:
            opname = r.choice(['Nope', ''])
        given = {}
        for v in self.vars:
            x = r.random()
            if v in self.bools:
                if x < .7:
                    given[v] = r.random() < .5
            elif x < .5:
                given[v] = r.choice([0, 1, -1, 'a', [1, 2], {'k': [None]},
                                     2.5, True, '', [], {}])
            elif x < .55 and not any(w['name'] == v and w['nonnull']
                                     for o in ops for w in o['vars']):
                given[v] = None
        # required variables are usually given
        for o in ops:
            for w in o['vars']:
                if w['nonnull'] and not (self.bad and r.random() < .1):
                    given.setdefault(w['name'],
                                     True if w['name'] in self.bools else 7)
        if r.random() < .3:
            given['extra'] = 1
        return {'ops': ops, 'frags': frags}, given, opname


# -- text -----------------------------------------------------------------------

class Printer:

    def __init__(self, r):
        self.r = r

    def ws(self, need=False):
        r = self.r
        x = r.random()
        if x < .6:
            return ' ' if need or r.random() < .5 else ''
        return r.choice([' ', '\n', '  \n\t', ' , ', ',', '\r\n',
                         ' # comment } " {\n', '\n#\n'])

    def value(self, v):
        if v['t'] == 'l':
            return '[' + self.ws().join(
                self.value(i) + self.ws(True) for i in v['c']) + ']'
        if v['t'] == 'd':
            kv = list(zip(v['kk'], v['c']))
            self.r.shuffle(kv)
            return '{' + ' '.join(k + self.ws() + ':' + self.ws()
                                  + self.value(x) for k, x in kv) + '}'
        return v.get('text') or {'b:1': 'true', 'b:0': 'false'}.get(
            v['s']) or '$' + v['s']

    def args(self, args):
        if not args:
            return ''
        return '(' + self.ws() + self.ws(True).join(
            n + self.ws() + ':' + self.ws() + self.value(v) + ' '
            for n, v in args) + ')' + self.ws()

    def dirs(self, dirs):
        return ''.join(self.ws() + '@' + d['name'] + self.args(d['args'])
                       + self.ws(True) for d in dirs)

    def sels(self, sels):
        return '{' + self.ws() + self.ws(True).join(
            self.sel(x) + ' ' for x in sels) + '}' + self.ws()

    def sel(self, x):
        if x['k'] == 'spread':
            return '...' + self.ws() + x['name'] + self.ws(True) \
                + self.dirs(x['dirs'])
        if x['k'] == 'inline':
            on = self.r.choice(['', ' on Foo '])
            return '...' + on + self.dirs(x['dirs']) + self.ws() \
                + self.sels(x['sel'])
        t = ''
        if x['alias']:
            t += x['alias'] + self.ws() + ':' + self.ws()
        t += x['name'] + self.ws(True) + self.args(x['args']) \
            + self.dirs(x['dirs'])
        if not x['leaf']:
            t += self.sels(x['sel'])
        return t

    def op(self, o):
        if not o['name'] and not o['vars'] and o['kind'] == 'query' \
                and self.r.random() < .5:
            return self.sels(o['sel'])
        t = o['kind'] + ' ' + o['name'] + self.ws()
        if o['vars']:
            t += '(' + self.ws(True).join(
                '$%s%s:%s%s%s%s ' % (
                    v['name'], self.ws(), self.ws(), v.get('type', 'Boolean'),
                    '!' if v['nonnull'] else '',
                    ' = ' + self.value(v['def']) if v['has'] else '')
                for v in o['vars']) + ')'
        return t + self.ws() + self.sels(o['sel'])

    def frag(self, f):
        return 'fragment ' + f['name'] + ' on Foo ' + self.sels(f['sel'])

    def doc(self, d):
        parts = [self.op(o) for o in d['ops']] + \
                [self.frag(f) for f in d['frags']]
        self.r.shuffle(parts)
        return self.ws() + self.ws(True).join(parts)


def fold(doc, r):
    """text of documents without operations has to be valid"""
    return Printer(r).doc(doc)


def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k not in ('text', 'type')}
    if isinstance(x, list):
        return [strip(i) for i in x]
    return x


def case(doc, given, opname, text):
    out = []
    for only in (False, True):
        c = {'doc': strip(doc), 'vars': enc_opts(given), 'opname': opname,
             'only': only, 'err': '', 'type': '', 'name': '',
             'q': {'ord': False, 'fields': []}}
        keep = Keep()
        args = (keep('the variables', copy.deepcopy(given)) if given
                else None, opname or None)
        try:
            if only:
                c['q'] = qenc.encode(read(text, *args))
            else:
                o = read_operation(text, *args)
                c.update(type=o.type.name.lower(), name=o.name or '',
                         q=qenc.encode(o.query))
        except Exception as e:
            c['err'] = type(e).__name__
        c['touched'] = keep.touched()
        out.append(c)
    return out


def small(arg):
    d = arg['d']
    vals = {'b:1': True, 'b:0': False}
    # order of operations and fragments must not matter
    return case(d['doc'], {n: vals[v] for n, v in d['vars']}, d['opname'],
                Printer(random.Random(arg['seed'])).doc(d['doc']))


def rand(arg):
    r = random.Random(arg['seed'])
    doc, given, opname = Doc(r).doc()
    text = Printer(r).doc(doc)
    out = case(doc, given, opname, text)
    # the same document with other variables, another operation
    if given and r.random() < .3:
        # (conditions of directives stay booleans)
        out += case(doc, {n: v if n[0] == 'b' else similar(v, r)
                          for n, v in given.items()}, opname, text)
    if r.random() < .1:
        out += case(doc, given, r.choice(
            [o['name'] for o in doc['ops'] if o['name'] != opname] or ['']),
            text)
    return out


def similar(v, r):
    """a value which may be equal but is not the same"""
    if isinstance(v, list):
        return [similar(x, r) for x in v]
    if isinstance(v, dict):
        return {k: similar(x, r) for k, x in v.items()}
    if isinstance(v, (bool, int, float)) and v == v:
        return r.choice([x for x in (v, float(v), int(v), bool(v))
                         if x == v])
    return v


def run(check, recipe=None):
    args = []
    if recipe is None:
        res = tlc.run('HikuGraphQLMC', MC % (
            'TRUE' if check.thorough else 'FALSE'), [])
        check.tlc(res)
        if res.violated:
            raise RuntimeError('specification is broken\n' + res.out[-2000:])
        args = [{'d': d, 'seed': check.seed + k}
                for k, d in enumerate(res.tagged('DOC'))]
    cases.run(check, recipe, 'HikuGraphQLCases', small, args, count='enumerated')
    cases.run(check, recipe, 'HikuGraphQLCases', rand,
              [{'seed': check.seed * 104729 + k}
               for k in range(check.n(2000, 40000))])
