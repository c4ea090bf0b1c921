"""C32: what a record says about its stack"""
import shutil

import stackh

MC = '''SPECIFICATION Spec
CONSTANTS Values={0,300,500,1000} N=%d
CHECK_DEADLOCK FALSE
INVARIANT Order Mirror Unit Pearson Tops Middle
'''


def run(ctx):
    ctx.model_check('MCStats', MC % (6 if ctx.thorough else 5), workers=8)
    cases = []
    for i in range(ctx.n(300, 4000)):
        d = ctx.scratch('stats')
        cases.append(stackh.stats_case(ctx.rng, d))
        shutil.rmtree(d, ignore_errors=True)
    ctx.report(cases, ctx.judge('StatsTrace', cases, workers=8))
    ctx.extra['gaussian'] = sum(c['shape'] for c in cases)
    for c in cases[:3]:
        ctx.sample(dict(g=c['g'], looks=c['n'], obs={k: c['obs'][k] for k in ('max', 'std', 'centre', 'skew', 'kurt', 'nuse')}))
