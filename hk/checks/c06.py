"""C06: failing and malformed loader results abort the execution."""
from .. import engcheck as ec
from ..build import FAULTS

FLAGS = dict(missing=True, required_opts=True, opt_p=0.3)


def run(check, recipe=None):
    ec.traces(check, recipe, ec.mixed(
        check.seed, check.n(1200, 15000), FLAGS, 'ccaatcas', faults=0.9,
        base=60000))
    cat = ec.design(check, recipe, dict(FLAGS, nodes=2, depth=2),
                    check.n(25, 150), hi=check.n(9, 12), width=6, base=6)
    ec.behaviours(check, recipe, cat, check.n(400, 5000), failing=True,
                  aio=check.n(80, 800))
    if recipe is None:
        # every kind of fault at every call of every scenario
        args = []
        for arg, case in cat:
            for k in range(1, case['size'] + 1):
                for f in dict.fromkeys(FAULTS):
                    for mode in check.n('ca', 'ccacast'):
                        args.append(dict(arg, mode=mode, faults={k: f},
                                         sched=len(args)))
        check.count('faults_enumerated', len(args))
        ec.traces(check, recipe, args, 'with faults')
