"""C18: what a record says about time, orbit and instrument: interpolated at the overflight, or that of the closest burst"""
import chaincases as cc
from checks import chaincheck as ck


def run(ctx):
    ck.model(ctx)
    rng = ctx.rng
    plans = []
    for i in range(ctx.n(22, 200)):
        p = cc.Plan(ctx, {'axis': rng.choice(['lon', 'lat'])})
        kind = ['gaps', 'gaps', 'gaps', 'longgaps', 'long'][i % 5]
        b = ck.bursts(rng, kind, p_bad=rng.choice([0, .1]) if kind == 'gaps' else 0, p_back=.2)
        p.processor('k', cnf=ck.conf(rng), skip=i % 5 == 0)
        p.run('k', b, want=('refusal', 'count', 'fields', 'time', 'align'))
        plans.append(p)
    ck.judge(ctx, plans)
