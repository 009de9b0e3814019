"""C08: options (with defaults) and context reach the loaders unchanged."""
from .. import engcheck as ec

FLAGS = dict(opt_p=0.95, ctx_p=0.6, required_opts=True, width=6)


def run(check, recipe=None):
    ec.traces(check, recipe, ec.mixed(check.seed, check.n(900, 12000), FLAGS,
                                      'ccasccat', base=80000))
    if recipe is None:
        ec.traces(check, recipe, ec.mixed(
            check.seed, check.n(400, 6000), dict(FLAGS, missing=True),
            'ccas', base=85000))
        ec.traces(check, recipe, ec.mixed(
            check.seed, check.n(300, 4000),
            dict(FLAGS, two_level=True, opt_p=0.7), 'ccas', base=88000))
    cat = ec.design(check, recipe, dict(FLAGS, nodes=2, depth=2),
                    check.n(20, 150), hi=check.n(10, 13), width=7, base=8)
    ec.behaviours(check, recipe, cat, check.n(200, 3000),
                  aio=check.n(80, 800))
