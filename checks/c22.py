"""C22: each bin of the waveform is the average over the looks that contribute to it"""
from checks import chaincheck as ck, looks


def run(ctx):
    looks.model(ctx)
    rng = ctx.rng
    plans = []
    for i in range(ctx.n(24, 200)):
        p, b = looks.plan(ctx, i, kind=['gaps', 'gaps', 'gaps', 'longgaps'][i % 4], masks=i % 3 != 2, samples=[32, 8, 16][i % 3],
                          cnf=dict(ck.cal(rng), N_looks_stack_cnf=rng.choice([2, 4, 5, 8, 16])))
        for x in b:
            x['g'], x['c1'], x['s0'] = rng.choice([1, 1, 10]), rng.choice([1, 1, 2, 3]), rng.choice([0, 0, 1])
            if x['g'] == 10:        # 32 bit integers in the specification
                x['c2'] = [1, 1, 1]
        p.run('k', b, want=('refusal', 'count', 'place', 'wave', 'mask'))
        plans.append(p)
    ck.judge(ctx, plans)
