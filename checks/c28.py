"""C28: each look of a stack is the beam of its burst that points at the surface"""
import chaincases as cc
from checks import chaincheck as ck


def run(ctx):
    ck.model(ctx)
    rng = ctx.rng
    plans = []
    for i in range(ctx.n(26, 200)):
        p = cc.Plan(ctx)
        kind = ['gaps', 'gaps', 'gaps', 'gaps', 'longgaps', 'long'][i % 6]
        b = ck.bursts(rng, kind, p_bad=rng.choice([0, .1]) if kind == 'gaps' else 0, p_back=.2)
        p.processor('k', cnf=ck.conf(rng, flag_azimuth_processing_method_cnf=['exact', 'approx'][i % 2], **ck.cal(rng)))
        cc.settle(b, [True] * len(b))
        cc.aim(rng, b)
        for x in b:
            x['c2'] = [1, 1, 1]
        p.run('k', b, want=('refusal', 'count', 'place', 'stack', 'steer'))
        plans.append(p)
    ck.judge(ctx, plans)
