"""C15: a cancelled run stops at once and leaves the first records of the complete run; progress is what was announced"""
import chaincases as cc
from checks import chaincheck as ck


def run(ctx):
    ck.model(ctx)
    rng = ctx.rng
    plans, pairs = [], []
    for i in range(ctx.n(16, 120)):
        p = cc.Plan(ctx)
        kind = ['gaps', 'gaps', 'longgaps', 'gaps', 'long'][i % 5]
        b = ck.bursts(rng, kind, p_bad=rng.choice([0, .1]) if kind == 'gaps' else 0)
        cnf = ck.conf(rng)
        p.processor('k', cnf=cnf)
        noise = i % 2 == 0
        full = p.run('k', ck.clone(b), noise=noise, want=('refusal', 'progress', 'count'))
        for _ in range(ctx.n(2, 5)):
            at = rng.choice([0, 1, rng.randint(0, len(b)), rng.randint(len(b) // 2, len(b)), len(b) - 1])
            key = 'k' if rng.random() < .5 else 'f%d' % len(p.new)
            if key != 'k':
                p.processor(key, cnf=cnf)
            c = p.run(key, ck.clone(b), noise=noise, cancel=at, want=('cancel', 'refusal', 'progress', 'count', 'place', 'stack', 'payload', 'names'))
            if noise and not len(b) < 3:
                pairs.append(('prefix', full, c, 0))
        if i % 3 == 0:     # after a cancelled run the processor still works
            again = p.run('k', ck.clone(b), noise=noise, want=('refusal', 'progress', 'count', 'place'))
            pairs.append(('same', full, again, 0))
        plans.append(p)
    ck.judge(ctx, plans)
    ck.relate(ctx, [x for x in pairs if x[0] != 'prefix' or x[1]['obs']['err'] == ''])
