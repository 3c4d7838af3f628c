from ..iohist import gen_history, run_history, shrink_ops as shrinks


def generate(r, tier, i):
    return gen_history(r, ["gtiff"], tier)


def execute(sc, ctx):
    run_history(sc, ctx)
