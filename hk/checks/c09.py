"""C09: one object loaded through many paths; only requested keys readable."""
from .. import engcheck as ec

FLAGS = dict(nodes=2, pool=2, many=5, opt_p=0.8, alias_p=0.75, width=8,
             ord_p=0.2, depth=3)


def run(check, recipe=None):
    ec.traces(check, recipe, ec.mixed(check.seed, check.n(700, 10000), FLAGS,
                                      'ccacsct', base=90000))
    cat = ec.design(check, recipe, dict(FLAGS, depth=2),
                    check.n(20, 150), hi=check.n(10, 13), width=7, base=9)
    ec.behaviours(check, recipe, cat, check.n(200, 3000),
                  aio=check.n(80, 800))
    ec.schedules(check, recipe, cat, check.n(60, 500))
