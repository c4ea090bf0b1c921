"""C19: UTC day and second of each record, also across midnight and leap seconds"""
import chaincases as cc
from checks import chaincheck as ck


def run(ctx):
    ck.model(ctx)
    rng = ctx.rng
    plans = []
    for i in range(ctx.n(30, 260)):
        p = cc.Plan(ctx)
        kind = 'gaps' if i % 8 else 'longgaps'
        b = ck.bursts(rng, kind, p_bad=rng.choice([0, .1]) if kind == 'gaps' else 0, utc='midnight' if i % 4 else 'random')
        p.processor('k', cnf=ck.conf(rng, output_format_flag_cnf=ck.FORMATS[i % 2]))
        p.run('k', b, want=('refusal', 'utc', 'align'))
        plans.append(p)
    ck.judge(ctx, plans)
