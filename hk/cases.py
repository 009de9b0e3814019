"""Cases of real code decided by TLC (HikuCases and modules based on it)."""
from . import tlc
from .core import parallel

CFG = 'SPECIFICATION CSpec\nCHECK_DEADLOCK FALSE\nCONSTANT Bad <- BadCase\n'


class Keep:
    """objects given to the code, which have to stay as they are"""

    def __init__(self):
        self.objs = []

    def __call__(self, what, obj, view=repr):
        self.objs.append((what, obj, view, view(obj)))
        return obj

    def touched(self):
        return [what for what, obj, view, was in self.objs
                if view(obj) != was]


def shared(memo, key, x):
    """equal parts are the same objects, when there is a memo"""
    return x if memo is None else memo.setdefault(repr(key), x)


def rname(fn):
    return fn.__module__ + ':' + fn.__name__


def wants(recipe, fn):
    return recipe is None or recipe.get('fn') == rname(fn)


def verdicts(check, module, cases, cfg=CFG):
    """clauses broken, for each case"""
    try:
        res = tlc.run(module, cfg, cases)
    except tlc.TLCError as e:
        # the specification has no meaning for one of them
        check.broken = getattr(check, 'broken', 0) + 1
        if check.broken > 40:
            raise
        if len(cases) == 1:
            return [['outside of the specification: ' + str(e)[-300:]]]
        k = len(cases) // 2
        return verdicts(check, module, cases[:k], cfg) + \
            verdicts(check, module, cases[k:], cfg)
    check.tlc(res)
    out = {x['i']: x['bad'] for x in res.tagged('VERDICT')}
    return [out[i] for i in range(1, len(cases) + 1)]


def decide(check, module, fn, pairs, chunk=4000, what='', cfg=CFG):
    """pairs: (arg, case); fn made the case from the arg"""
    for k in range(0, len(pairs), chunk):
        part = pairs[k:k + chunk]
        for (arg, case), bad in zip(part, verdicts(
                check, module, [c for _, c in part], cfg)):
            check.traces += 1
            if bad:
                check.fail('%s%s: %s' % (what, str(arg)[:300],
                                         '; '.join(map(str, bad))[:500]),
                           {'fn': rname(fn), 'arg': arg})
    if pairs:
        check.sample({'case': str(pairs[0][1])[:600]})


def run(check, recipe, module, fn, args, limit=30, chunk=4000, what='',
        cfg=CFG, count=None):
    """runs fn(arg) -> case (or list of cases) in workers; TLC decides"""
    if recipe is not None:
        if not wants(recipe, fn):
            return
        args = [recipe['arg']]
    pairs = []
    for arg, c in parallel(check, fn, args, limit):
        for x in (c if isinstance(c, list) else [c]):
            if x is not None:
                pairs.append((arg, x))
                if x.get('err'):
                    check.count('with_errors')
    check.count(count or 'cases', len(pairs))
    decide(check, module, fn, pairs, chunk, what, cfg)
