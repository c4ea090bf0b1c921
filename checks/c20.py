"""C20: surface focusing moves one surface onto the target that is passed, and nothing else"""
import math

import chaincases as cc
from checks import chaincheck as ck


def run(ctx):
    ck.model(ctx)
    rng = ctx.rng
    plans = []
    for i in range(ctx.n(24, 200)):
        p = cc.Plan(ctx)
        kind = ['gaps', 'gaps', 'gaps', 'longgaps', 'gaps', 'long'][i % 6]
        b = ck.bursts(rng, kind, p_back=.3)
        cc.settle(b, [True] * len(b))
        inside = rng.choice(b)
        # targets half way between two surfaces are ties
        off = rng.choice([x for x in range(-480, 490, 10)]) + 5
        starts = [x for j, x in enumerate(b) if j == 0 or x['t'] - b[j - 1]['t'] >= 1500]
        st = rng.choice(starts)['pos'] if rng.random() < .3 else max([x['pos'] for x in starts if x['pos'] <= inside['pos']] or [b[0]['pos']])
        k = (inside['pos'] - st) // 1000
        t = st + 1000 * k + off if rng.random() < .85 else rng.choice([b[0]['pos'] - 60005, max(x['pos'] for x in b) + 60005])
        deg = math.degrees(math.radians(10.0) + t * p.geom.unit_rad)
        p.processor('k', cnf=ck.conf(rng, flag_surface_focusing_cnf=True, surface_focusing_lat_cnf=0.0,
                                     surface_focusing_lon_cnf=deg, surface_focusing_alt_cnf=0.0))
        for _ in range(2 if i % 4 == 0 else 1):
            p.run('k', ck.clone(b), target=t, want=('refusal', 'count', 'place', 'stack', 'payload'))
        plans.append(p)
    ck.judge(ctx, plans)
