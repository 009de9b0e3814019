"""C01: the result is the meaning of the query, whatever the schedule."""
from .. import engcheck as ec

FLAGS = dict()


def run(check, recipe=None):
    ec.traces(check, recipe, ec.mixed(check.seed, check.n(900, 12000), FLAGS))
    cat = ec.design(check, recipe, dict(nodes=2, depth=2),
                    check.n(25, 150), hi=check.n(10, 13), width=7)
    ec.behaviours(check, recipe, cat, check.n(300, 4000),
                  aio=check.n(80, 800))
    ec.schedules(check, recipe, cat, check.n(60, 600))
