"""C14: two-level graphs: expressions over a low-level graph."""
from .. import engcheck as ec

FLAGS = dict(two_level=True, opt_p=0.4)


def run(check, recipe=None):
    ec.traces(check, recipe, ec.mixed(check.seed, check.n(1200, 15000), FLAGS,
                                      'ccacsct', base=140000))
    cat = ec.design(check, recipe, dict(FLAGS, nodes=2, depth=2),
                    check.n(25, 150), hi=check.n(11, 14), width=6, base=14)
    ec.behaviours(check, recipe, cat, check.n(250, 3000),
                  aio=check.n(80, 800))
    ec.schedules(check, recipe, cat, check.n(50, 400))
