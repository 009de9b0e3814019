"""Development tool (never used by checks): small changes of the code.

  mutate.py tests OUT.jsonl [FILE...]   changes which pass the existing tests
  mutate.py checks OUT.jsonl RES.jsonl [N]   which of them the checks report
Everything happens in scratch copies of /repo.
"""
import ast
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import PY, V, copy, env  # noqa: E402

CHECKS = {
    'engine.py': 'C01 C02 C03 C04 C05 C06 C07 C08 C14 C18 C16 C15',
    'query.py': 'C09 C01 C11 C18 C13 C20 C10 C03 C14',
    'result.py': 'C10 C13 C01 C02 C14 C18',
    'graph.py': 'C01 C02 C05 C06 C08 C12 C13 C14 C15 C16 C21 C22 C18',
    'types.py': 'C12 C13 C21 C16 C22 C10',
    'builder.py': 'C20 C09 C01',
    'utils.py': 'C01 C12 C11 C16',
    'executors/': 'C04 C07 C05 C06 C15',
    'expr/': 'C23 C05 C14 C04 C01',
    'sources/graph.py': 'C23 C05 C14 C04 C06 C01',
    'sources/': 'C15',
    'readers/graphql.py': 'C11 C18 C20',
    'readers/simple.py': 'C20 C22 C18',
    'readers/protobuf.py': 'C20',
    'export/': 'C20 C22',
    'denormalize/': 'C13 C10 C18',
    'validate/graph.py': 'C21 C12',
    'validate/query.py': 'C12 C22 C18',
    'introspection/': 'C16 C18',
    'telemetry/': 'C17',
    'console/': 'C22',
    'typedef/': 'C22 C21',
    'endpoint/': 'C18',
    'edn.py': 'C19 C20 C22',
    'protobuf/': 'C20',
    'compat.py': 'C20',
}


def checks_of(f):
    f = f[len('hiku/'):]
    for k, v in CHECKS.items():
        if f == k or (f.startswith(k) and k.endswith('/')):
            return v.split()
    return []


SWAP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<',
        ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is',
        ast.In: 'not in', ast.NotIn: 'in'}
TOK = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
       ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
       ast.In: 'in', ast.NotIn: 'not in'}


def mutants(text):
    tree = ast.parse(text)
    lines = text.splitlines(True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    data = text.encode()

    def pos(n):
        return (starts[n.lineno - 1] + n.col_offset,
                starts[n.end_lineno - 1] + n.end_col_offset)

    def src(n):
        a, b = pos(n)
        return data[a:b].decode()
    out = []

    def put(n, new, why):
        a, b = pos(n)
        if data[a:b].decode() != new:
            out.append((a, b, new, why, n.lineno))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)) and n.name in (
                '__repr__', '__str__'):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                if m is not n:
                    skip.add(m)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(n)
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0])
            put(n, '%s %s %s' % (src(n.left), SWAP[o],
                                 src(n.comparators[0])), 'compare')
        if isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + op.join(src(v) for v in n.values) + ')', 'boolop')
            for k in range(len(n.values)):
                rest = [src(v) for i, v in enumerate(n.values) if i != k]
                put(n, '(' + (' and ' if isinstance(n.op, ast.And) else
                              ' or ').join(rest) + ')', 'drop operand')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(' + src(n.operand) + ')', 'not')
        if isinstance(n, (ast.If, ast.IfExp)):
            put(n.test, 'True', 'condition')
            put(n.test, 'False', 'condition')
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, str(not n.value), 'constant')
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), 'constant')
            elif n.value is None:
                pass
        if isinstance(n, ast.Return) and n.value is not None and not (
                isinstance(n.value, ast.Constant) and n.value.value is None):
            put(n.value, 'None', 'return')
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (
                isinstance(n, ast.Expr) and not isinstance(
                    n.value, ast.Constant)) or isinstance(n, ast.Raise):
            put(n, 'pass', 'delete')
        if isinstance(n, (ast.Continue, ast.Break)):
            put(n, 'pass', 'delete')
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    put(k, '', 'keyword')
            for a in n.args:
                if len(n.args) > 1 and not isinstance(a, ast.Starred):
                    put(a, 'None', 'argument')
        if isinstance(n, ast.comprehension):
            for i in n.ifs:
                put(i, 'True', 'filter')
        if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords \
                and isinstance(n.func, ast.Name) and n.func.id in (
                    'list', 'tuple', 'dict', 'set', 'sorted', 'reversed',
                    'iter', 'frozenset', 'bool', 'str', 'int', 'OrderedDict'):
            put(n, '(' + src(n.args[0]) + ')', 'unwrap')
        if isinstance(n, ast.Dict):
            pass
    seen = set()
    for a, b, new, why, ln in sorted(out):
        new_text = (data[:a] + new.encode() + data[b:]).decode()
        if why == 'keyword':
            new_text = (re.sub(rb',\s*$', b'', data[:a]) + data[b:]).decode()
        if new_text in seen:
            continue
        seen.add(new_text)
        try:
            ast.parse(new_text)
        except SyntaxError:
            continue
        yield {'line': ln, 'why': why, 'old': data[a:b].decode()[:80],
               'new': new[:80], 'a': a, 'b': b, 'text': new_text}


def run_tests(r, t=60):
    try:
        p = subprocess.run(
            [PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
             '--ignore=docs/test_asyncio.py', 'tests', 'docs'],
            cwd=r, env=env(r), stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL, timeout=t)
        return p.returncode == 0
    except subprocess.TimeoutExpired:
        return False


def do_tests(out, files):
    if not files:
        files = sorted(
            os.path.relpath(os.path.join(d, f), '/repo')
            for d, _, fs in os.walk('/repo/hiku') for f in fs
            if f.endswith('.py') and f != 'query_pb2.py')
        files = [f for f in files if checks_of(f)]
    dirs = Queue()
    all_ = []
    for _ in range(7):
        d = copy()
        all_.append(d[0])
        dirs.put(d[1])
    jobs = []
    for f in files:
        text = open('/repo/' + f).read()
        jobs += [dict(m, file=f) for m in mutants(text)]
    print(len(jobs), 'changes')

    def one(j):
        r = dirs.get()
        p = os.path.join(r, j['file'])
        orig = open(p).read()
        try:
            open(p, 'w').write(j['text'])
            return j, run_tests(r)
        finally:
            open(p, 'w').write(orig)
            dirs.put(r)
    n = 0
    with ThreadPoolExecutor(7) as ex, open(out, 'w') as o:
        for j, ok in ex.map(one, jobs):
            if ok:
                n += 1
                o.write(json.dumps(j) + '\n')
                o.flush()
    print(n, 'pass the tests')
    for d in all_:
        shutil.rmtree(d)


def do_checks(inp, res, par=2):
    jobs = [json.loads(x) for x in open(inp)]
    done = set()
    if os.path.exists(res):
        for x in open(res):
            j = json.loads(x)
            done.add((j['file'], j['a'], j['b'], j['new'], j['why']))
    jobs = [j for j in jobs if (j['file'], j['a'], j['b'], j['new'],
                                j['why']) not in done]

    def one(j):
        d, r = copy()
        try:
            open(os.path.join(r, j['file']), 'w').write(j['text'])
            j = {k: v for k, v in j.items() if k != 'text'}
            j['by'] = None
            for c in checks_of(j['file']):
                e = env(r)
                e.update(HIKU_REPO=r, HKV_EVIDENCE=os.path.join(d, 'ev'),
                         VERIF_SEED='1')
                e.pop('PYTHONPATH')
                e.setdefault('HKV_SCALE', '0.3')
                try:
                    p = subprocess.run(
                        [sys.executable, os.path.join(V, 'check.py'), c],
                        cwd=V, env=e, stdout=subprocess.PIPE,
                        stderr=subprocess.STDOUT, timeout=900)
                except subprocess.TimeoutExpired:
                    j['by'] = c + ' timeout'
                    break
                if p.returncode:
                    ok = b'VIOLATION property=' in p.stdout
                    j['by'] = c + ('' if ok else ' rc=%d ' % p.returncode +
                                   p.stdout.decode()[-300:])
                    break
            return j
        finally:
            shutil.rmtree(d)
    with ThreadPoolExecutor(par) as ex, open(res, 'a') as o:
        for j in ex.map(one, jobs):
            o.write(json.dumps(j) + '\n')
            o.flush()


if __name__ == '__main__':
    if sys.argv[1] == 'tests':
        do_tests(sys.argv[2], sys.argv[3:])
    else:
        do_checks(sys.argv[2], sys.argv[3], int((sys.argv[4:] or ['2'])[0]))
