"""C19: EDN values."""
import random
import re
from datetime import datetime
from decimal import Decimal
from uuid import UUID

from hiku.edn import (Dict, Keyword, List, Set, Symbol, TaggedElement, Tuple,
                      dumps, loads)

from .. import cases, tlc

MODULE = 'HikuEDNCases'
MC = ('SPECIFICATION MSpec\nCHECK_DEADLOCK FALSE\n'
      'CONSTANTS Length = %d Alphabet = {%s}\n'
      'INVARIANTS Written Trailing Incremental\nPROPERTY Stuck\n')
NUM = re.compile(r'-?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?[MN]?')
INST = '%Y-%m-%dT%H:%M:%S.%fZ'


def codes(s):
    return [ord(c) for c in s]


def node(t, s='', c=()):
    return {'t': t, 's': codes(s), 'c': list(c)}


def num(x):
    return 'i:%d' % x if isinstance(x, int) else 'f:%r' % x


def tree(v):
    """value of the reader -> value of the specification"""
    if v is None:
        return node('nil')
    if v is True or v is False:
        return node('true' if v else 'false')
    if isinstance(v, (int, float)):
        return node('num', num(v))
    if isinstance(v, Decimal):
        return node('num', exact(v))
    if isinstance(v, Keyword):
        return node('kw', v)
    if isinstance(v, Symbol):
        return node('sym', v)
    if isinstance(v, str):
        return node('str', v)
    if isinstance(v, List) or type(v) is list:
        return node('l', c=map(tree, v))
    if isinstance(v, Tuple) or type(v) is tuple:
        return node('t', c=map(tree, v))
    if isinstance(v, dict):
        return node('d', c=[tree(x) for kv in v.items() for x in kv])
    if isinstance(v, (Set, set)):
        return node('s', c=map(tree, v))
    if isinstance(v, TaggedElement):
        return node('tag', v.name, [tree(v.value)])
    if isinstance(v, datetime):
        return node('inst', v.strftime(INST))
    if isinstance(v, UUID):
        return node('uuid', str(v))
    return node('unknown ' + repr(v))


def exact(x):
    return 'd:%s' % x.normalize()


def parsed(s):
    s = s.rstrip('MN')
    return num(float(s) if set(s) & set('.eE') else int(s))


def nums(text, written=False):
    """numbers in the text (the reader makes no difference for exact ones)"""
    out = {}
    for i in range(len(text)):
        m = NUM.match(text, i)
        if m:
            s = m.group()
            out[s] = exact(Decimal(s[:-1])) if written and s[-1] == 'M' \
                else parsed(s)
    return [{'tok': codes(k), 'v': codes(v)} for k, v in out.items()]


def read(text, handlers=()):
    try:
        v = loads(text, {h: handled for h in handlers}) if handlers \
            else loads(text)
        return {'out': 'ok', 'v': tree(v)}
    except Exception:
        return {'out': 'bad', 'v': node('nil')}


def handled(v):
    return List([Symbol('handled'), v])


def reading(text, handlers=()):
    return {'what': 'loads', 'text': codes(text), 'nums': nums(text),
            'handlers': [codes(h) for h in handlers],
            'got': read(text, handlers)}


def small(arg):
    return [reading(''.join(map(chr, t))) for t in arg['texts']]


# random values

ALPHABET = ['a', 'b', 'n', 'u', '0', '7', '"', '\\', '\n', '\t', '\r', '\b',
            '\f', '\v', '\a', '\0', '\x1f', '\x7f', ' ', ';', ',', '#', '{',
            '}', '[', ']', '(', ')', ':', '/', "'", '\x80', 'é', 'ß', 'Я',
            '\u2028', '\ud7ff', '\ue000', '\uffff', '\U00010000', '\U0001f600',
            '\U0010ffff']
NAMES = ['a', 'b', 'ab', 'a1', 'a-b', 'a.b', 'ns/a', 'a_b', 'x?', 'y!', 'T',
         'truer', 'nila', 'a*', 'a+b', 'A', 'a=b', 'a:b', 'a%']


def string(r):
    return ''.join(r.choice(ALPHABET) for _ in range(
        r.randint(0, 8) if r.random() < .997 else r.choice([70, 300])))


def number(r):
    return r.choice([0, 1, -1, 7, 10 ** 20, -10 ** 9, r.randint(-999, 999),
                     0.5, -0.25, 1.0, 1e20, 1e-07, -1.5e300, 5e-324,
                     r.random(), r.uniform(-1e6, 1e6)])


def decimal(r):
    return Decimal(r.choice(['0', '1', '-1.50', '0.10', '1E+20', '-2.5E-9',
                             '12345678901234567890.12345678901234567890',
                             str(r.randint(-10 ** 6, 10 ** 6))]))


def value(r, depth, tags=True, plain=False):
    k = r.choice(['nil', 'bool', 'num', 'num', 'str', 'str', 'kw', 'sym'] +
                 (['inst', 'uuid'] if tags else []) +
                 (['l', 't', 'd', 's', 'l', 'd'] +
                  (['tag'] if tags else []) if depth else []))
    if k == 'nil':
        return None
    if k == 'bool':
        return r.random() < .5
    if k == 'num':
        return number(r)
    if k == 'str':
        return string(r)
    if k == 'kw':
        return Keyword(r.choice(NAMES))
    if k == 'sym':
        return Symbol(r.choice(NAMES + ['-a', '.a', '-.', '->']))
    if k == 'inst':
        return datetime(r.randint(1000, 9999), r.randint(1, 12),
                        r.randint(1, 28), r.randint(0, 23), r.randint(0, 59),
                        r.randint(0, 59), r.choice([0, 1, 999999, 120000]))
    if k == 'uuid':
        return UUID(int=r.getrandbits(128))
    if k == 'tag':
        return TaggedElement(r.choice(['a', 'foo/bar', 'T1', 'x-y']),
                             value(r, depth - 1))
    n = r.randint(0, 4)
    if depth < 3 and r.random() < .004:
        depth, n = min(depth, 1), r.choice([20, 40, 70])
    if k in 'lt':
        xs = [value(r, depth - 1, tags) for _ in range(n)]
        if r.random() < .3:
            return xs if k == 'l' else tuple(xs)
        return List(xs) if k == 'l' else Tuple(xs)
    if k == 's':
        return r.choice([Set, Set, set])(
            key(r, depth - 1) for _ in range(n))
    return r.choice([Dict, dict])(
        [(key(r, depth - 1), value(r, depth - 1, tags)) for _ in range(n)])


class Opaque:
    """something the writer does not know"""

    def __init__(self, value):
        self.value = value


def unknown(r, v):
    """some of the values inside become unknown"""
    if type(v) in (list, tuple, List, Tuple):
        v = type(v)(unknown(r, x) for x in v)
    elif isinstance(v, dict):
        v = type(v)((k, unknown(r, x)) for k, x in v.items())
    elif type(v) in (set, Set):
        v = type(v)(unknown(r, x) for x in v)
    elif isinstance(v, TaggedElement):
        v = TaggedElement(v.name, unknown(r, v.value))
    return Opaque(v) if r.random() < .2 else v


def key(r, depth):
    while True:
        v = value(r, depth, r.random() < .5)
        if not vague(v):
            return v


def vague(v):
    """0, 0.0 and false are one key; some values are no keys"""
    if isinstance(v, (bool, float, list, set)) or type(v) is dict:
        return True
    if isinstance(v, dict):
        return any(map(vague, v)) or any(map(vague, v.values()))
    if isinstance(v, (tuple, frozenset)):
        return any(map(vague, v))
    return isinstance(v, TaggedElement) and vague(v.value)


def similar(r, v):
    """a value which differs in the kind of one part (or is the same)"""
    if type(v) in (List, Tuple) and v and r.random() < .9:
        k = r.randrange(len(v))
        return type(v)(v[:k] + (similar(r, v[k]),) + v[k + 1:])
    if type(v) is Dict and v and r.random() < .9:
        k = r.choice(list(v))
        return Dict((a, similar(r, b) if a is k else b)
                    for a, b in v.items())
    if isinstance(v, TaggedElement) and r.random() < .3:
        return TaggedElement(r.choice(['a', 'foo/bar', 'T1']), v.value)
    if isinstance(v, TaggedElement) and r.random() < .9:
        return TaggedElement(v.name, similar(r, v.value))
    if type(v) in (Keyword, Symbol, str):
        return r.choice([Keyword, Symbol, str, type(v)])(v)
    return r.choice([v, v, None, 'a', Keyword('a'), Symbol('a'), List(),
                     Dict(), TaggedElement('a', v)])


def own(v):
    """the same value in the containers of the reader"""
    if type(v) in (list, List):
        return List(map(own, v))
    if type(v) in (tuple, Tuple):
        return Tuple(map(own, v))
    if type(v) in (set, Set):
        return Set(map(own, v))
    if isinstance(v, dict):
        return Dict((own(a), own(b)) for a, b in v.items())
    if isinstance(v, TaggedElement):
        return TaggedElement(v.name, own(v.value))
    return v


def compared(r):
    a = own(value(r, r.randint(0, 3)))
    b = similar(r, a) if r.random() < .8 else own(value(r, 1))
    got = [a == b, b == a, not (a != b), not (b != a)]
    if not (vague(a) or vague(b)):
        # (values of mappings and sets are found by equality)
        got += [b in {a: 1}, a in Set([b])]
    return {'what': 'eq', 'a': tree(a), 'b': tree(b), 'got': got}


def mappings(v):
    if isinstance(v, dict):
        yield v
        for k, x in v.items():
            yield from mappings(k)
            yield from mappings(x)
    elif isinstance(v, TaggedElement):
        yield from mappings(v.value)
    elif isinstance(v, (tuple, frozenset)):
        for x in v:
            yield from mappings(x)


def frozen(r):
    """someone tries to change what was read"""
    try:
        v = loads(dumps(Dict([(key(r, 1), value(r, 2))
                              for _ in range(r.randint(1, 3))])))
    except Exception:
        return []
    before = tree(v)
    d = r.choice(list(mappings(v)))
    k = r.choice(list(d) or ['a'])
    try:
        [lambda: d.__setitem__(k, 1), lambda: d.__delitem__(k),
         lambda: d.clear(), lambda: d.pop(k), lambda: d.popitem(),
         lambda: d.setdefault('new', 1), lambda: d.update({k: 1})
         ][r.randrange(7)]()
        refused = False
    except TypeError:
        refused = True
    return [{'what': 'frozen', 'refused': refused, 'a': before, 'b': tree(v)}]


def refusal(r):
    v = value(r, r.randint(0, 3))
    w = unknown(r, v)
    try:
        if dumps(w) == dumps(v):
            return []         # nothing became unknown
        refused = False
    except Exception:
        refused = True
    try:
        dumps(w, lambda x: x.value)
        return [{'what': 'refusal', 'refused': refused}] \
            if any(isinstance(x, Opaque) for x in parts(w)) else []
    except Exception:
        return []


def parts(v):
    yield v
    if isinstance(v, dict):
        for x in v.items():
            yield from parts(x)
    elif isinstance(v, (list, tuple, set, frozenset)):
        for x in v:
            yield from parts(x)
    elif isinstance(v, TaggedElement):
        yield from parts(v.value)


def escaped(r, s):
    """one of the ways to write a string"""
    out = []
    for c in s:
        short = {'\a': 'a', '\b': 'b', '\f': 'f', '\n': 'n', '\r': 'r',
                 '\t': 't', '\v': 'v', '/': '/'}.get(c)
        n = ord(c)
        if c in '"\\':
            out.append('\\' + c)
        elif short and r.random() < .5:
            out.append('\\' + short)
        elif r.random() < .2:
            if n > 0xffff:
                n -= 0x10000
                us = [0xd800 + (n >> 10), 0xdc00 + (n & 0x3ff)]
            else:
                us = [n]
            for u in us:
                x = '\\u%04x' % u
                out.append(x if r.random() < .5 else x[:2] + x[2:].upper())
        else:
            out.append(c)
    return '"%s"' % ''.join(out)


def space(r, must=False):
    out = ''
    while r.random() < .3:
        out += r.choice([' ', ',', '\n', '\t', '\r', ' ;x"]\n', ' ; \n'])
    return out or (' ' if must or r.random() < .7 else '')


def write(r, v):
    """one of the ways to write a value"""
    def seq(o, xs, c):
        return o + space(r) + ''.join(
            write(r, x) + space(r, True) for x in xs).rstrip(' ') + c
    if isinstance(v, str) and not isinstance(v, (Keyword, Symbol)):
        if len(v) == 1 and r.random() < .3:
            named = {'\n': 'newline', ' ': 'space', '\t': 'tab'}.get(v)
            if named or v.isalnum() and v.isascii():
                return '\\' + (named or v)
        return escaped(r, v)
    if isinstance(v, List) or type(v) is list:
        return seq('[', v, ']')
    if isinstance(v, Tuple) or type(v) is tuple:
        return seq('(', v, ')')
    if isinstance(v, dict):
        return seq('{', [x for kv in v.items() for x in kv], '}')
    if isinstance(v, (Set, set)):
        return seq('#{', v, '}')
    if isinstance(v, TaggedElement):
        return '#' + v.name + space(r, True) + write(r, v.value)
    if isinstance(v, float) and r.random() < .5:
        return ('%r' % v).replace('e', 'E')
    return dumps(v)


def rand(arg):
    r = random.Random(arg['seed'])
    out = []
    for _ in range(2):
        out.append(compared(r))
    out += frozen(r)
    out += refusal(r)
    for _ in range(10):
        v = value(r, r.randint(0, 3))
        got = {'out': 'ok', 'v': tree(v)}
        if r.random() < .5:
            w, default = v, None
            if r.random() < .2:
                w, default = unknown(r, v), lambda x: x.value
            elif r.random() < .2:
                w = [v, decimal(r)]
                got['v'] = tree(w)
            ascii_ = r.random() < .5
            try:
                text = dumps(w, default, ensure_ascii=ascii_)
            except Exception as e:
                text = 'failed: %r' % e
            out.append({'what': 'dumps', 'text': codes(text),
                        'ascii': ascii_, 'nums': nums(text, True),
                        'got': got})
        else:
            text = space(r) + write(r, v) + space(r)
        if r.random() < .3:
            for _ in range(r.randint(1, 2)):
                k = r.randint(0, len(text))
                text = text[:k] + r.choice(['', r.choice(
                    '[](){}#:;,"\\ \na1-.')]) + text[k + r.randint(0, 1):]
        out.append(reading(text, r.sample(['a', 'foo/bar', 'T1', 'x-y'], 2)
                           if r.random() < .3 else ()))
    return out


def run(check, recipe=None):
    if recipe is None:
        # [ ( ) ] { } # " \ ; space : a u 1 - n
        for n, chars in [(4, '[]{}()#"\\; :a1-'), (5, '[]#a1 "\\'),
                         (7, '"\\u0')] + (
                [(5, '[]{}()#"\\; :a1-\n,.u'), (6, '[]{}#a1 "\\'),
                 (8, '"\\u0d')] if check.thorough else []):
            res = tlc.run('HikuEDNMC', MC % (
                n, ', '.join(str(ord(c)) for c in chars)))
            check.tlc(res)
            if res.violated:
                raise RuntimeError('specification is broken\n' +
                                   res.out[-2000:])
            bad = []
            for x in res.tagged('TEXT'):
                check.count('enumerated')
                text = ''.join(map(chr, x['text']))
                want = x['r']
                if want['out'] == 'any':
                    continue
                check.traces += 1
                got = read(text)
                if got['out'] != want['out'] or (
                        got['out'] == 'ok' and
                        got['v'] != resolved(want['v'])):
                    bad.append(x['text'])
            # (TLC has the last word: order of sets and mappings)
            cases.run(check, None, MODULE, small,
                      [{'texts': [t]} for t in bad[:200]])
    else:
        cases.run(check, recipe, MODULE, small, [])
    cases.run(check, recipe, MODULE, rand,
              [{'seed': check.seed * 15485867 + k}
               for k in range(check.n(1000, 20000))])


def resolved(v):
    if v['t'] == 'num':
        s = ''.join(map(chr, v['s']))
        return node('num', parsed(s))
    return dict(v, c=[resolved(x) for x in v['c']])
