"""C02: loaders get exactly the data they depend on, never before it."""
from .. import engcheck as ec

FLAGS = dict(opt_p=0.3, alias_p=0.3, width=7, ord_p=0.2)


def run(check, recipe=None):
    ec.traces(check, recipe, ec.mixed(check.seed, check.n(900, 12000), FLAGS,
                                      'cccatcas', base=20000))
    cat = ec.design(check, recipe, dict(FLAGS, nodes=2, depth=3),
                    check.n(25, 150), hi=check.n(11, 14), width=7, base=2)
    ec.behaviours(check, recipe, cat, check.n(300, 4000),
                  aio=check.n(80, 800))
    ec.schedules(check, recipe, cat, check.n(60, 600))
