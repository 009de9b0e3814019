"""Seeded random scenarios: graphs (one or two levels), queries, data."""
import random
import zlib

from .enc import enc

SCALARS = [None, True, False, 0, 1, -1, 2, 1.0, 0.0, 2.5, '', '0', 'a', 'null',
           [], {}, [0], [[1], {'k': None}], {'a': 1, 'b': [True]}, 'x y']
OPT_VALUES = [0, 1, -1, -2, 2, True, False, None, '', '0', '1', 'a', 1.0,
              [], {}, [1], [-1], [-2], ['1'], [[]], {'k': 1}, {'k': -1},
              {'k': -2}, {'k': [1, 2]}, {'a': 1, 'b': 2}, {'k': {}}, [1, [2]],
              [[1], 2], [1, 2], [2, 1], 2 ** 53 + 1, 2.0 ** 53, 'é',
              {'b': [{'c': 1}]}, {'b': [{'c': True}]}]


# no two of these are equal
MIXED = [0, 'p', (), (1,), (1, '1'), ('1', 1), '1', 1, b'', b'q', 2**70, -1,
         frozenset(), frozenset([1]), None, 'null', ('p',), 1.5, '', (None,),
         ((1,), 2)]


# values links depend on
KEYS = [0, 'k', None, [2]]


def h32(*parts):
    return zlib.crc32('|'.join(map(str, parts)).encode())


# --------------------------------------------------------------------------
# data: pure functions of the scenario

class Data:
    """What the loaders of a scenario return"""

    def __init__(self, scn):
        self.seed = scn['seed']
        self.pools = scn['pools']
        self.dts = scn.get('dts', {})
        self.many = scn.get('many', 4)

    def field(self, gi, node, ident, item, opts):
        key = (self.seed, gi, item['fn'], enc(ident), item['name'],
               enc(dict(opts or {})))
        return self.make(item['vk'], item['dt'], key)

    def make(self, vk, dt, key):
        h = h32(*key)
        if vk == 'key':
            return KEYS[h % 4]
        if vk == 'rec':
            return self.record(dt, key)
        if vk == 'optrec':
            return None if h % 3 == 0 else self.record(dt, key)
        if vk == 'listrec':
            return [self.record(dt, key + (i,)) for i in range(h % 4)]
        if vk == 'list':
            return ['%s%d' % (key[4], (h >> i) % 5) for i in range(h % 4)]
        if vk == 'any' and h % 2:
            return SCALARS[(h >> 3) % len(SCALARS)]
        return '%s.%s.%s(%s)%d' % (key[2], key[3], key[4], key[5], h % 7)

    def record(self, dt, key):
        return {name: self.make(vk, sub, key + (name,))
                for name, vk, sub in self.dts[dt]}

    def link(self, gi, node, item, req, opts):
        """idents of the targets (a list); [] for a missing maybe"""
        h = h32(self.seed, gi, item['fn'], req, enc(dict(opts or {})))
        pool = self.pools[str(gi)][item['to']]
        if item['ty'] == 'one':
            return [pool[h % len(pool)]]
        if item['ty'] == 'maybe':
            return [] if h % 3 == 0 else [pool[(h >> 2) % len(pool)]]
        return [pool[(h >> (2 * i)) % len(pool)]
                for i in range((h >> 1) % self.many)]


# --------------------------------------------------------------------------

def mkitem(name, k, fn, **kw):
    it = {'name': name, 'k': k, 'fn': fn, 'sub': 0, 'opts': [], 'req': '',
          'ty': '', 'to': '', 'expr': lit('null'), 'ctx': False, 'dt': '',
          'vk': 'any'}
    it.update(kw)
    return it


def lit(s):
    return ex('lit', s)


def ex(op, s='', p=(), a=(), r=(), m=()):
    # p: dict keys, a: operands, r: required data per call argument,
    # m: which call arguments are collections
    return {'op': op, 's': s, 'p': list(p), 'a': list(a), 'r': list(r),
            'm': list(m)}


class Gen:

    def __init__(self, seed, **flags):
        self.r = random.Random(seed)
        self.seed = seed
        self.flags = dict(nodes=3, depth=3, options=True, required_opts=False,
                          two_level=False, ordered=True, complex=True,
                          ctx=True, opt_pool=None, missing=False,
                          dup_alias=True, ord_p=0.35, sub_ord_p=0.1,
                          opt_p=0.45, pool=4, many=4, alias_p=0.4, ctx_p=0.25,
                          width=5, session_p=0.3, share_p=0.25, name_p=0.2,
                          big_p=0.03, forms_p=0.35)
        self.flags.update(flags)
        self.lits = {}

    # -- graphs -----------------------------------------------------------
    def opts(self):
        r = self.r
        if not self.flags['options'] or r.random() > self.flags['opt_p']:
            return []
        out = []
        for n in r.sample(self.onames, r.choice([1, 1, 2])):
            pool = self.flags['opt_pool'] or OPT_VALUES
            if self.flags['required_opts'] and r.random() < 0.5:
                out.append({'name': n, 'has': False, 'def': 'null', 'py': None})
            else:
                d = r.choice(pool)
                out.append({'name': n, 'has': True, 'def': enc(d), 'py': d})
        return out

    def graph(self, gi, names, tag, low=None):
        """one graph; names of its nodes; loaders are named <tag><node><n>"""
        r = self.r
        nodes = []
        dts = list(self.dts) if self.flags['complex'] else []
        for nn in [''] + names:
            items = []
            nfn = r.randint(1, 3)
            fns = ['%s%s.f%d' % (tag, nn or 'R', i) for i in range(nfn)]
            fctx = {f: self.flags['ctx'] and r.random() < self.flags['ctx_p'] for f in fns}
            nf = r.randint(2, 5) if nn else r.randint(1, 4)
            sub_node = low[1].get(nn) if (low and nn) else None
            for i in range(nf):
                fn = r.choice(fns)
                it = mkitem(self.nm('f%d' % i), 'f', fn, ctx=fctx[fn])
                x = r.random()
                if dts and x < 0.2:
                    it['dt'] = r.choice(dts)
                    it['vk'] = r.choice(['rec', 'rec', 'optrec', 'listrec'])
                elif x < 0.3:
                    it['vk'] = 'list'
                it['opts'] = self.opts()
                items.append(it)
            # fields whose values identify link targets
            nk = r.randint(1, 2)
            keys = []
            for i in range(nk):
                fn = r.choice(fns)
                it = mkitem(self.nm('k%d' % i), 'f', fn, vk='key', ctx=fctx[fn])
                if r.random() < 0.4:
                    it['opts'] = [o for o in self.opts() if o['has']]
                items.append(it)
                keys.append(it['name'])
            if sub_node:
                self.subfields(nn, items, low, sub_node)
                keys += [i['name'] for i in items if i.get('subkey')]
            nl = r.randint(1, 3)
            for i in range(nl):
                to = r.choice(names)
                ty = r.choice(['one', 'maybe', 'many', 'many'])
                req = r.choice(keys) if (nn or r.random() < 0.4) and \
                    r.random() < 0.8 else ''
                items.append(mkitem(self.nm('l%d' % i), 'l', '%s%s.l%d' % (tag, nn or 'R', i),
                                    to=to, ty=ty, req=req, opts=self.opts(),
                                    ctx=self.flags['ctx'] and r.random() < self.flags['ctx_p']))
            nodes.append({'name': nn, 'items': items})
        if r.random() < self.flags['share_p']:
            self.share(nodes)
        return {'nodes': nodes}

    def share(self, nodes):
        """the same loader in several nodes or for several links"""
        r = self.r
        fns = {}
        for nd in nodes:
            for it in nd['items']:
                if not it['sub']:
                    fns.setdefault(it['fn'], []).append((nd, it))
        for _ in range(r.randint(1, 4)):
            a, b = r.choice(list(fns)), r.choice(list(fns))
            xs, ys = fns[a], fns[b]
            if a == b or xs[0][1]['k'] != ys[0][1]['k']:
                continue
            x, y = xs[0][1], ys[0][1]
            if x['k'] == 'f':
                ks = {}
                if all(ks.setdefault(i['name'], k) == k for _, i in xs + ys
                       for k in [(i['vk'], i['dt'])]):
                    for _, i in ys:
                        i.update(fn=a, ctx=x['ctx'])
                    fns[a] = xs + ys
                    del fns[b]
            elif (x['to'], x['ty'], bool(x['req'])) == \
                    (y['to'], y['ty'], bool(y['req'])) and \
                    len({n['name'] == '' for n, _ in xs + ys}) == 1:
                for _, i in ys:
                    i.update(fn=a, ctx=x['ctx'])
                fns[a] = xs + ys
                del fns[b]

    ODD = ['keys', 'items', 'pop', 'index', '_f', 'F0', 'self', 'ctx', 'f_0',
           'values', 'result', 'name', 'fields', 'options', 'node', 'A', 'ids',
           'env', 'func', 'query', 'set', 'dict', 'None', 'class', 'L0', 'next']

    def nm(self, name):
        return self.names.get(name, name)

    def subfields(self, nn, items, low, low_node):
        r = self.r
        sgi = low[2][low_node]
        for i in range(r.randint(1, 4)):
            name = self.nm('e%d' % i)
            opts = [o for o in self.opts()]
            it = mkitem(name, 'f', 'SG%d' % sgi, sub=sgi, opts=opts)
            env = {'this': ('ref', low_node)}
            for o in opts:
                env[o['name']] = ('opt',)
            it['expr'] = self.expr(low[0], env, r.randint(1, 3))
            items.append(it)
        # a direct mapping of a low-level key field, usable as a requirement
        low_items = next(n for n in low[0]['nodes']
                         if n['name'] == low_node)['items']
        keys = [i['name'] for i in low_items if i['vk'] == 'key'
                and not i['opts']]
        if keys:
            kname = r.choice(keys)
            it = mkitem(kname if r.random() < 0.5 and
                        all(i['name'] != kname for i in items) else 'ek',
                        'f', 'SG%d' % sgi, sub=sgi)
            it['expr'] = ex('get', kname, a=[ex('sym', 'this')])
            it['subkey'] = True
            items.append(it)

    # -- expressions ------------------------------------------------------
    def low_items(self, g, node):
        return next(n for n in g['nodes'] if n['name'] == node)['items']

    def refs(self, g, env, want, depth=2):
        """reference expressions of the wanted shape:
        ('ref', node) objects, 'maybe', 'many', 'scalar', 'list', 'rec'..."""
        out = []

        def walk(e, ty, d):
            out.append((e, ty))
            if d == 0:
                return
            if ty[0] == 'ref':
                for it in self.low_items(g, ty[1]):
                    if it['opts']:
                        continue
                    walk(ex('get', it['name'], a=[e]), self.ity(it), d - 1)
            elif ty[0] == 'rec':
                for name, vk, sub in self.dts[ty[1]]:
                    walk(ex('get', name, a=[e]), self.vty(vk, sub), d - 1)
        for v, ty in env.items():
            walk(ex('sym', v), ty, depth)
        if self.flags.get('root_symbols', True):
            for it in self.low_items(g, ''):
                if not it['opts'] and it['name'] not in env:
                    walk(ex('sym', it['name']), self.ity(it), depth - 1)
        return [(e, ty) for e, ty in out if want(ty)]

    def vty(self, vk, dt):
        if vk in ('rec', 'optrec', 'listrec'):
            return (vk, dt)
        return ('list',) if vk == 'list' else ('scalar',)

    def ity(self, it):
        if it['k'] == 'l':
            return ({'one': 'ref', 'maybe': 'maybe', 'many': 'many'}[it['ty']],
                    it['to'])
        return self.vty(it['vk'], it['dt'])

    def var(self, env):
        r = self.r
        if r.random() < 0.25 and len(env) > 1:
            vs = [v for v in env if v != 'this']
            if vs:
                return r.choice(vs)
        return r.choice(self.vars)

    def expr(self, g, env, depth):
        r = self.r
        scal = self.refs(g, env, lambda t: t[0] in ('scalar', 'list', 'opt'))
        if depth == 0 or r.random() < 0.25:
            if scal and r.random() < 0.85:
                return r.choice(scal)[0]
            v = r.choice([1, 'q', True, False, None, 2.5, ''])
            e = lit(enc(v))
            self.lits[enc(v)] = v
            return e
        op = r.choice(['each', 'each', 'ifsome', 'ifsome', 'if', 'call', 'call',
                       'list', 'dict', 'get'])
        sub = lambda en=None: self.expr(g, en or env, depth - 1)
        if op == 'each':
            cols = self.refs(g, env, lambda t: t[0] in ('many', 'list', 'listrec'))
            if not cols:
                return sub()
            col, ty = r.choice(cols)
            v = self.var(env)
            vt = {'many': ('ref', ty[-1]), 'list': ('scalar',),
                  'listrec': ('rec', ty[-1])}[ty[0]]
            return ex('each', v, a=[col, sub({**env, v: vt})])
        if op == 'ifsome':
            cs = self.refs(g, env, lambda t: t[0] in ('maybe', 'optrec'))
            if not cs:
                return sub()
            b, ty = r.choice(cs)
            v = self.var(env)
            vt = ('ref' if ty[0] == 'maybe' else 'rec', ty[1])
            return ex('ifsome', v, a=[b, sub({**env, v: vt}), sub()])
        if op == 'if':
            return ex('if', a=[sub(), sub(), sub()])
        if op == 'list':
            return ex('list', a=[sub() for _ in range(r.randint(0, 3))])
        if op == 'dict':
            ks = sorted(r.sample(['a', 'b', 'c'], r.randint(0, 3)))
            return ex('dict', p=ks, a=[sub() for _ in ks])
        if op == 'call':
            args, reqs, many = [], [], []
            for _ in range(r.randint(1, 2)):
                objs = self.refs(g, env, lambda t: t[0] in
                                 ('ref', 'many', 'rec', 'listrec'))
                if objs and r.random() < 0.7:
                    e, ty = r.choice(objs)
                    tree = self.tree(g, ty, 2)
                    if tree:
                        args.append(e)
                        reqs.append(tree)
                        many.append(ty[0] in ('many', 'listrec'))
                        continue
                args.append(sub())
                reqs.append([])
                many.append(False)
            self.nfn += 1
            return ex('call', 'fn%d' % self.nfn, a=args, r=reqs, m=many)
        if scal:
            return r.choice(scal)[0]
        return lit('null')

    def tree(self, g, ty, depth):
        r = self.r
        if ty[0] in ('rec', 'listrec'):
            cands = [(n, self.vty(vk, sub)) for n, vk, sub in self.dts[ty[1]]]
        else:
            cands = [(i['name'], self.ity(i)) for i in self.low_items(g, ty[1])
                     if not i['opts']]
        r.shuffle(cands)
        out = []
        for name, t in cands[:r.randint(1, 3)]:
            if t[0] in ('scalar', 'list'):
                out.append({'name': name, 'sub': [], 'many': False})
            elif t[0] in ('ref', 'many', 'rec', 'listrec') and depth > 0:
                s = self.tree(g, t, depth - 1)
                if s:
                    out.append({'name': name, 'sub': s,
                                'many': t[0] in ('many', 'listrec')})
        return out

    # -- queries ----------------------------------------------------------
    def query(self, g, node, depth, root=True):
        r = self.r
        items = next(n for n in g['nodes'] if n['name'] == node)['items']
        out, used = [], set()
        n = r.randint(1, self.flags['width'])
        pool = self.flags['opt_pool'] or OPT_VALUES
        for _ in range(n):
            it = r.choice(items)
            if it['k'] == 'l' and depth == 0:
                continue
            opts = []
            for o in it['opts']:
                if not o['has']:
                    if not (self.flags['missing'] and r.random() < 0.1):
                        opts.append((o['name'], r.choice(pool)))
                elif r.random() < 0.75:
                    opts.append((o['name'], r.choice(pool)))
            if it['opts'] and r.random() < 0.05:
                opts.append(('zz', 1))
            r.shuffle(opts)
            if self.flags['dup_alias'] and r.random() < self.flags['alias_p']:
                alias = r.choice(['a1', 'a2', 'a3', self.nm('f0'),
                                  self.nm('l0'), self.nm('k0')])
            else:
                alias = ''
            if (alias or it['name']) in used:
                alias = 'u%d' % len(used)
            if (alias or it['name']) in used:
                continue
            used.add(alias or it['name'])
            q = {'k': it['k'], 'name': it['name'], 'alias': alias,
                 'opts': [[k, enc(v)] for k, v in opts],
                 'py': dict(opts) if opts or r.random() < 0.3 else None,
                 'node': {'ord': False, 'fields': []}}
            if it['k'] == 'l':
                q['node'] = self.query(g, it['to'], depth - 1, False)
            elif it['dt']:
                q['k'] = 'l'
                q['node'] = self.dtquery(it['dt'])
            out.append(q)
        ordered = self.flags['ordered'] and r.random() < (
            self.flags['ord_p'] if root else self.flags['sub_ord_p'])
        if ordered and not self.flags.get('ordered_req', True):
            pass
        return {'ord': ordered, 'fields': out}

    def dtquery(self, dt):
        r = self.r
        fs = []
        used = set()
        for name, vk, sub in self.dts[dt]:
            for _ in range(2):
                if r.random() < 0.5:
                    continue
                alias = r.choice(['', '', 'a1', 'a2', 'g0'])
                if (alias or name) in used:
                    continue
                used.add(alias or name)
                q = {'k': 'f', 'name': name, 'alias': alias, 'opts': [],
                     'py': None, 'node': {'ord': False, 'fields': []}}
                if vk in ('rec', 'optrec', 'listrec'):
                    q['k'] = 'l'
                    q['node'] = self.dtquery(sub)
                fs.append(q)
        return {'ord': False, 'fields': fs}

    def scenario(self):
        r = self.r
        self.dts = {}
        self.nfn = 0
        self.names = {}
        self.vars = ['x', 'y', 'z']
        if r.random() < 0.3:
            self.vars = r.sample(['x', 'x_2', 'x_3', 'env', 'ctx', 'next',
                                  'None', 'True', 'self', 'fn', 'node'], 3)
        self.onames = ['o1', 'o2', 'o3']
        if r.random() < self.flags['name_p']:
            self.onames = r.sample(['o1', 'env', 'ctx', 'next', 'x', 'x_2',
                                    'if-not', 'options', 'default', 'class',
                                    'False'], 3)
        if r.random() < self.flags['name_p']:
            old = ['f0', 'f1', 'f2', 'f3', 'k0', 'k1', 'l0', 'l1', 'e0', 'e1']
            r.shuffle(old)
            self.names = dict(zip(old, r.sample(self.ODD, r.randint(1, 6))))
        if not self.flags['two_level'] and \
                r.random() < self.flags['big_p']:
            self.flags.update(pool=30, many=16, depth=2, width=3)
        elif not self.flags['two_level'] and \
                r.random() < self.flags['big_p'] * 2:
            # many more objects, deeper or wider queries
            self.flags.update(r.choice([
                dict(pool=180, many=300, depth=2, width=2),
                dict(depth=7, width=2, many=2), dict(depth=7, width=2, many=2),
                dict(depth=2, width=15), dict(depth=1, width=30)]))
        if self.flags['complex']:
            self.dts['D1'] = [('g0', 'any', ''), ('g1', 'key', ''),
                              ('g2', 'list', '')]
            self.dts['D2'] = [('g0', 'any', ''), ('g1', 'rec', 'D1'),
                              ('g2', 'listrec', 'D1'), ('g3', 'optrec', 'D1')]
        scn = {'seed': self.seed, 'many': self.flags['many'], 'dts': self.dts, 'pools': {}, 'sgs': []}
        names = ['A', 'B', 'C'][:self.flags['nodes']]

        def pool():
            k = r.randint(1, self.flags['pool'])
            x = r.random()
            if k > 40:
                return r.sample(range(-1, 999), 180)
            if k > 12:
                k = 30
                return r.sample(range(-1, 99), k) if x < .5 else \
                    ['i%d' % i for i in r.sample(range(99), k)]
            if x < 0.4:
                return r.sample(range(-1, 14), k) if k > 4 else \
                    r.sample(range(-1, 6), k)
            if x < 0.65:
                return r.sample(MIXED, k)
            return r.sample(['p', 'q', 'r', 's', '', 't', 'u', 'v', 'w', 'x',
                             'y', 'z'] if k > 4 else
                            ['p', 'q', 'r', 's', ''], k)
        if self.flags['two_level']:
            lnames = ['X', 'Y', 'Z'][:max(2, self.flags['nodes'])]
            low = self.graph(2, lnames, 'L')
            scn['pools']['2'] = {n: pool() for n in lnames}
            scn['sgs'] = [{'graph': 2, 'node': n} for n in lnames]
            lowmap = {n: lnames[i % len(lnames)] for i, n in enumerate(names)}
            if r.random() < .3:
                # several nodes over one
                lowmap = {n: r.choice(lnames[:2]) for n in names}
            high = self.graph(1, names, 'H',
                              (low, lowmap, {n: i + 1 for i, n in
                                             enumerate(lnames)}))
            scn['pools']['1'] = {n: scn['pools']['2'][lowmap[n]] for n in names}
            scn['graphs'] = [high, low]
        else:
            g = self.graph(1, names, 'H')
            scn['pools']['1'] = {n: pool() for n in names}
            scn['graphs'] = [g]
        scn['lits'] = self.lits
        for _ in range(50):
            q = self.query(scn['graphs'][0], '', self.flags['depth'])
            if q['fields']:
                break
        scn['q'] = q
        # loaders return other sequences than lists
        scn['callables'] = r.random() < 0.3
        scn['noctx'] = r.random() < 0.15
        # equal parts of queries and graphs are the same objects
        scn['aliased'] = self.seed % 5 < 2
        scn['explored'] = {0: 1, 1: 1, 2: 2}.get(self.seed % 7, 0)
        scn['forms'] = r.random() < self.flags['forms_p']
        # other queries, executed before or beside with the same engine
        scn['others'], scn['before'], scn['beside'] = [], [], []
        if r.random() < self.flags['session_p']:
            for _ in range(3):
                q = self.query(scn['graphs'][0], '', self.flags['depth'])
                if q['fields']:
                    scn['others'].append(q)
            ks = [-2, -1] + list(range(len(scn['others'])))
            scn['before'] = [[r.choice(ks), r.choice([0, 0, r.randint(1, 5)])]
                             for _ in range(r.randint(0, 3))]
            scn['beside'] = [r.choice(ks[1:]) for _ in range(r.randint(0, 2))]
        return scn


def spec_item(it):
    return {k: it[k] for k in ('name', 'k', 'fn', 'sub', 'req', 'ty', 'to',
                               'expr', 'ctx', 'dt', 'vk')} | {
        'opts': [{k: o[k] for k in ('name', 'has', 'def')} for o in it['opts']]}


def spec_query(q):
    return {'ord': q['ord'], 'fields': [
        {'k': f['k'], 'name': f['name'], 'alias': f['alias'],
         'opts': f['opts'], 'node': spec_query(f['node'])}
        for f in q['fields']]}


def spec_scn(scn):
    """the part of a scenario the specification reads"""
    return {'graphs': [{'nodes': [{'name': n['name'],
                                   'items': [spec_item(i) for i in n['items']]}
                                  for n in g['nodes']]}
                       for g in scn['graphs']],
            'sgs': scn['sgs'], 'q': spec_query(scn['q'])}
