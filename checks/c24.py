"""C24: antenna weights"""
from checks import chaincheck as ck, looks


def run(ctx):
    looks.model(ctx)
    plans = []
    for i in range(ctx.n(24, 200)):
        p, b = looks.plan(ctx, i, masks=i % 2 == 0, aw=i % 8 != 7)
        p.run('k', b, want=('refusal', 'count', 'place', 'wave'))
        plans.append(p)
    ck.judge(ctx, plans)
