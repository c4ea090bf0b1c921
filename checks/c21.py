"""C21: samples wrapped around by the alignment and looks outside of the angle limits are masked"""
from checks import chaincheck as ck, looks


def run(ctx):
    looks.model(ctx)
    plans = []
    for i in range(ctx.n(24, 200)):
        p, b = looks.plan(ctx, i, masks=i % 6 != 5, avoid=i % 2 == 0)
        p.run('k', b, want=('refusal', 'count', 'place', 'mask', 'wave'))
        plans.append(p)
    ck.judge(ctx, plans)
