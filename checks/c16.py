"""C16: the products depend on the input and the configuration only, not on what the processor did before"""
import chaincases as cc
from checks import chaincheck as ck


def run(ctx):
    ck.model(ctx)
    rng = ctx.rng
    plans, pairs = [], []
    for i in range(ctx.n(12, 100)):
        p = cc.Plan(ctx)
        cnf = ck.conf(rng, flag_stack_masking_cnf=rng.random() < .5, **ck.cal(rng))
        if rng.random() < .3:
            cnf.update({'flag_surface_focusing_cnf': True, 'surface_focusing_lat_cnf': 0.0, 'surface_focusing_alt_cnf': 0.0,
                        'surface_focusing_lon_cnf': 10.0 + rng.uniform(0, 1) * .3})
        files = []
        for j in range(rng.randint(2, 3)):
            kind = rng.choice(['gaps', 'gaps', 'gaps', 'short', 'long'])
            files.append(('L1A_%d.nc' % j, ck.bursts(rng, kind, ids0=1 + 3000 * j, p_bad=rng.choice([0, .1]) if kind == 'gaps' else 0)))
        p.processor('old', cnf=cnf)
        runs = []
        for _ in range(rng.randint(2, 4)):
            f, b = rng.choice(files)
            cancel = rng.randint(0, len(b)) if rng.random() < .3 else None
            p.run('old', ck.clone(b), file=f, noise=True, cancel=cancel, want=())
        for f, b in files:
            x = p.run('old', ck.clone(b), file=f, noise=True, want=('refusal',))
            p.processor('new' + f, cnf=cnf)
            y = p.run('new' + f, ck.clone(b), file=f, noise=True, want=('refusal',))
            pairs.append(('same', x, y, 0))
        plans.append(p)
    # the same with tagged echoes, judged against the model
    for i in range(ctx.n(8, 60)):
        p = cc.Plan(ctx)
        p.processor('k', cnf=ck.conf(rng, **ck.cal(rng)))
        for j in range(3):
            b = ck.bursts(rng, 'gaps' if j or i % 4 else 'short', p_bad=.05, pos0=rng.choice([0, 0, 20000]), t0=rng.choice([0, 0, 500]))
            p.run('k', b, file='L1A_%d.nc' % j, cancel=rng.randint(1, len(b)) if j < 2 and rng.random() < .4 else None,
                  want=('refusal', 'count', 'place', 'stack', 'payload', 'align', 'fields', 'names'))
        plans.append(p)
    ck.judge(ctx, plans)
    ck.relate(ctx, pairs)
