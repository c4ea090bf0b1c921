"""C14: a gap separates segments that do not influence each other; each burst is calibrated and used once"""
import chaincases as cc
from checks import chaincheck as ck


def run(ctx):
    ck.model(ctx)
    rng = ctx.rng
    plans, pairs = [], []
    for i in range(ctx.n(18, 160)):
        p = cc.Plan(ctx)
        b = ck.bursts(rng, 'gaps' if i % 6 else 'longgaps', p_bad=rng.choice([0, .1]), p_back=rng.choice([0, .5]))
        p.processor('k', cnf=ck.conf(rng, **ck.cal(rng)))
        p.run('k', b, want=('refusal', 'count', 'place', 'stack', 'payload', 'align', 'fields', 'time', 'utc'))
        plans.append(p)
    for i in range(ctx.n(14, 120)):
        # two files that share their last (or first) segments
        p = cc.Plan(ctx)
        cnf = ck.conf(rng, flag_stack_masking_cnf=rng.random() < .5, **ck.cal(rng))
        common = ck.bursts(rng, 'gaps', ids0=5000, t0=900000, pos0=100000)
        one = ck.bursts(rng, 'gaps', ids0=1, pos0=rng.choice([0, 60000, 95000]))
        two = ck.bursts(rng, 'gaps', ids0=2000, pos0=rng.choice([0, 60000, 95000]))
        if i % 3 == 2:
            for x in one + two:
                x['t'] += 2000000
        files = []
        for j, o in enumerate((one, two)):
            f = ck.clone(o)
            c = ck.clone(common)
            fn = (c + f) if i % 3 == 2 else (f + c)
            p.processor('k%d' % j, cnf=cnf)
            files.append(p.run('k%d' % j, fn, noise=True, want=('refusal', 'count')))
        m = sum(1 for j, x in enumerate(common) if j == 0 or x['t'] - common[j - 1]['t'] >= 1500)
        pairs.append(('head' if i % 3 == 2 else 'tail', files[0], files[1], m))
        plans.append(p)
    ck.judge(ctx, plans)
    ck.relate(ctx, pairs)
