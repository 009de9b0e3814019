"""C10: merging queries."""
import random

from hiku.query import Field, Link, Node, merge, QueryTransformer

from .. import cases, qenc, tlc
from ..gen import OPT_VALUES

MC = ('SPECIFICATION MSpec\nCHECK_DEADLOCK FALSE\n'
      'CONSTANTS Size = %d Lists = %d\nINVARIANTS Meaning Unique Idempotent '
      'Order Associative Commutes\n')
INTS = {'i:1': 1}


def case(nodes):
    before = [qenc.encode(n) for n in nodes]
    c = {'ns': before, 'err': ''}
    try:
        out = merge(nodes)
        c.update(out=qenc.encode(out),
                 again=qenc.encode(merge([QueryTransformer().visit(out)])),
                 flip=qenc.encode(merge(tuple(reversed(nodes)))))
    except Exception as e:
        c['err'] = repr(e)[:200]
        return c
    c['after'] = [qenc.encode(n) for n in nodes]
    return c


def small(arg):
    return case([qenc.decode(n, INTS.get) for n in arg['ns']])


WIDE = ['w%d' % k for k in range(40)]


def rnode(r, depth, many):
    items = []
    for _ in range(r.randint(0, many)):
        name = r.choice(['a', 'b', 'c'] if many < 9 else WIDE)
        alias = r.choice([None, None, 'a', 'x'])
        o = r.choice([None, None, {}, 1, 1, 2])
        if o in (1, 2):
            o = {k: r.choice(OPT_VALUES) for k in r.sample(['p', 'q'], o)}
        if depth and r.random() < .5:
            items.append(Link(name, rnode(r, depth - 1, many), o, alias))
        else:
            items.append(Field(name, o, alias))
    return Node(items, ordered=r.random() < .25)


def rand(arg):
    r = random.Random(arg['seed'])
    nodes = [rnode(r, r.randint(0, 3), r.randint(1, 4))
             for _ in range(r.randint(1, 3))]
    if r.random() < .02:
        # wide ones
        nodes += [rnode(r, r.randint(0, 1), r.choice([20, 50]))
                  for _ in range(r.randint(1, 2))]
    if r.random() < .15:
        nodes.append(r.choice(nodes))
    for n in nodes:
        # asked about itself before
        if r.random() < .3:
            qenc.explore(n, r.random() < .5)
    return case(nodes)


def run(check, recipe=None):
    if recipe is None:
        for size, lists in [(2, 1), (1, 2)] + (
                [(3, 1), (1, 3)] if check.thorough else []):
            res = tlc.run('HikuMerge', MC % (size, lists))
            check.tlc(res)
            if res.violated:
                raise RuntimeError('specification is broken\n' + res.out[-2000:])
            cases.run(check, None, 'HikuMergeCases', small,
                      [{'ns': x} for x in res.tagged('NODES')],
                      count='enumerated')
    else:
        cases.run(check, recipe, 'HikuMergeCases', small, [])
    cases.run(check, recipe, 'HikuMergeCases', rand,
              [{'seed': check.seed * 7919000 + k}
               for k in range(check.n(2500, 40000))])
