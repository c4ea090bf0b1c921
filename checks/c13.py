"""C13: surfaces at every spacing along the track, each with all the bursts that see it"""
import chaincases as cc
from checks import chaincheck as ck


def run(ctx):
    ck.model(ctx)
    rng = ctx.rng
    plans = []
    for i in range(ctx.n(26, 200)):
        p = cc.Plan(ctx, {'axis': rng.choice(['lon', 'lat'])})
        kind = ['gaps', 'long', 'gaps', 'short', 'longgaps', 'gaps'][i % 6]
        b = ck.bursts(rng, kind, p_bad=rng.choice([0, 0, .08]) if kind == 'gaps' else 0)
        p.processor('k', cnf=ck.conf(rng, N_looks_stack_cnf=[4, 6, 7, 8, 12, 16][(i * 5) % 6]), skip=i % 4 == 3)
        p.run('k', b, want=('refusal', 'count', 'place', 'stack', 'payload', 'align'))
        plans.append(p)
    ck.judge(ctx, plans)
