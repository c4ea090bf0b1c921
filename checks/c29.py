"""C29: the echo of a surface is at the same range in all looks of its stack"""
from checks import chaincheck as ck, looks


def run(ctx):
    looks.model(ctx)
    plans = []
    for i in range(ctx.n(24, 200)):
        p, b = looks.plan(ctx, i, kind=['gaps', 'gaps', 'gaps', 'longgaps'][i % 4], masks=i % 3 == 0, tone=True)
        p.run('k', b, want=('refusal', 'count', 'place', 'stack', 'range') if i % 3 else ('refusal', 'count', 'place', 'range'))
        plans.append(p)
    ck.judge(ctx, plans)
