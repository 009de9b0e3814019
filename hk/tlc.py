"""Running TLC (and nothing else) on the modules in /verif/spec."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')


class TLCError(Exception):
    pass


class Result:
    def __init__(self, out, rc, states, distinct, violated):
        self.out = out
        self.rc = rc
        self.states = states
        self.distinct = distinct
        self.violated = violated

    def tagged(self, tag):
        """values printed with PrintT("<tag> " \\o ToJson(..))"""
        res = []
        pat = '"' + tag + ' '
        for line in self.out.splitlines():
            if line.startswith(pat) and line.endswith('"'):
                body = line[len(pat):-1].replace('\\"', '"')
                body = body.replace('\\\\', '\\')
                res.append(json.loads(body))
        return res


def scratch():
    return tempfile.mkdtemp(prefix='hkv-')


def run(module, cfg, cases=None, env=None, workers=None, args=(), heap='6g',
        timeout=800, extra_files=None, ok_violation=False):
    """cfg: text of the configuration; cases: list written as ndjson, read by
    the module through IOEnv.CASES"""
    tmp = scratch()
    try:
        cfgp = os.path.join(tmp, 'run.cfg')
        with open(cfgp, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        if cases is not None:
            p = os.path.join(tmp, 'cases.ndjson')
            with open(p, 'w') as f:
                for c in cases:
                    f.write(json.dumps(c))
                    f.write('\n')
            e['CASES'] = p
        for k, v in (env or {}).items():
            e[k] = str(v)
        for name, data in (extra_files or {}).items():
            p = os.path.join(tmp, name)
            with open(p, 'w') as f:
                for c in data:
                    f.write(json.dumps(c))
                    f.write('\n')
            e[name.split('.')[0].upper()] = p
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-Djava.io.tmpdir=' + tmp, '-DTLA-Library=' + SPEC,
               '-cp', JARS, 'tlc2.TLC',
               '-workers', str(workers or min(8, os.cpu_count() or 1)),
               '-metadir', os.path.join(tmp, 'meta'),
               '-config', cfgp, '-noGenerateSpecTE']
        cmd += list(args)
        cmd.append(os.path.join(SPEC, module + '.tla'))
        p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode('utf-8', 'replace')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    m = re.findall(r'(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states',
                   out)
    st, di = ((int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', '')))
              if m else (0, 0))
    violated = bool(re.search(r'Error: (Invariant|Action property|Temporal|'
                              r'Deadlock|The invariant)', out)) or \
        'is violated' in out
    if p.returncode != 0 and not violated:
        raise TLCError(module + ': TLC failed (rc %s)\n' % p.returncode
                       + brief(out))
    if violated and not ok_violation:
        pass
    return Result(out, p.returncode, st, di, violated)


def brief(out):
    lines = [x[:400] for x in out.splitlines()
             if not x.startswith('"') and not re.match(r'\s*(/\\|\||\[|<<)', x)]
    k = next((i for i, x in enumerate(lines) if 'rror' in x), 0)
    return '\n'.join(lines[k:k + 40])
