"""C05: ordered nodes run one step after another, in request order."""
from .. import engcheck as ec

FLAGS = dict(ord_p=1.0, sub_ord_p=0.5, width=8, opt_p=0.2)


def run(check, recipe=None):
    ec.traces(check, recipe, ec.mixed(check.seed, check.n(900, 12000), FLAGS,
                                      'ccatcast', base=50000))
    cat = ec.design(check, recipe, dict(FLAGS, nodes=2, depth=2),
                    check.n(30, 200), hi=check.n(12, 16), width=6, base=5)
    ec.behaviours(check, recipe, cat, check.n(300, 4000),
                  aio=check.n(80, 800))
    ec.schedules(check, recipe, cat, check.n(60, 600))
