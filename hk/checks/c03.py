"""C03: the number of loader calls depends on the query only."""
from .. import engcheck as ec

BIG = dict(pool=12, many=14, width=4, depth=3, ord_p=0.15, opt_p=0.3)
DUP = dict(pool=2, many=8, width=8, depth=2, ord_p=0.1, alias_p=0.7)


def run(check, recipe=None):
    n = check.n(350, 5000)
    ec.traces(check, recipe, ec.mixed(check.seed, n, BIG, 'ccac',
                                      base=30000))
    if recipe is None:
        ec.traces(check, recipe, ec.mixed(check.seed, n, DUP, 'ccas',
                                          base=35000))
    cat = ec.design(check, recipe, dict(DUP, nodes=2),
                    check.n(20, 150), hi=check.n(10, 13), width=7, base=3)
    ec.behaviours(check, recipe, cat, check.n(200, 3000),
                  aio=check.n(80, 800))
