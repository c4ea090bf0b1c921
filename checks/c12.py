"""C12: exactly the valid records of the region of interest are processed"""
import chaincases as cc
from checks import chaincheck as ck


def run(ctx):
    ck.model(ctx)
    rng = ctx.rng
    plans, pairs = [], []
    for i in range(ctx.n(28, 220)):
        geom = {'axis': rng.choice(['lon', 'lon', 'lat'])}
        p = cc.Plan(ctx, geom)
        kind = rng.choice(['gaps'] * 5 + ['longgaps'])
        b = ck.bursts(rng, kind, p_bad=rng.choice([0, .08, .2]), p_back=.25)
        roi = cc.pick_roi(rng, p.geom, b, 10.0, rng.choice(['both', 'both', 'min', 'max', 'tight'])) if i % 5 else None
        cnf = ck.conf(rng)
        p.processor('k', roi=roi, cnf=cnf, skip=rng.random() < .5)
        c = p.run('k', b, dataset=True, want=('dataset', 'refusal', 'count', 'place', 'stack', 'progress', 'payload', 'fields'))
        if i % 3 == 0:      # against the file without the records that are not usable
            p.processor('n', roi=roi, cnf=cnf)
            x = p.run('n', b, noise=True, want=('refusal', 'count'))
            use = [u for u, r in zip(ck.clone(b), x['rs']) if r['use']]
            if use:
                p.processor('m', cnf=cnf)
                y = p.run('m', use, noise=True, want=('refusal', 'count'))
                pairs.append(('cut', x, y, 0))
        plans.append(p)
    ck.judge(ctx, plans)
    ck.relate(ctx, pairs)
