"""C27: the sigma0 scaling factor is that of the radar equation"""
import shutil

import chaincases as cc
import stackh
from checks import chaincheck as ck

MC = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Gains Distance Looks1 Between\n'


def run(ctx):
    ctx.model_check('MCSigma', MC, workers=8)
    cases = []
    for i in range(ctx.n(250, 4000)):
        d = ctx.scratch('sigma')
        cases.append(stackh.sigma_case(ctx.rng, d))
        shutil.rmtree(d, ignore_errors=True)
    ctx.report(cases, ctx.judge('SigmaTrace', cases, workers=8))
    for c in cases[:3]:
        ctx.sample(c)
    plans = []
    for i in range(ctx.n(16, 120)):
        rng = ctx.rng
        p = cc.Plan(ctx, {})
        b = ck.bursts(rng, 'gaps', p_bad=.1)
        p.processor('k', cnf=ck.conf(rng, **ck.cal(rng)), skip=rng.random() < .5,
                    chd=dict(power_tx_ant_ku_chd=rng.uniform(1, 40), antenna_gain_ku_chd=rng.uniform(20, 50), ratio_trc_ku_chd=rng.uniform(-3, 3),
                             ptr_width_chd=rng.uniform(2e-9, 4e-9)))
        p.run('k', b, want=('refusal', 'count', 'place', 'fields', 'sigma'))
        plans.append(p)
    ck.judge(ctx, plans)
