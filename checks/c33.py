"""C33: looking at products shows what is in them"""
import shutil

import inspecth

MC = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Steps = %d\nINVARIANT OnlyMine Whole Wide Given Single Counted Marked Kinds\n'

def run(ctx):
    ctx.model_check('MCInspect', MC % ctx.n(2, 3), workers=8)
    inspecth.install()
    cases = []
    for i in range(ctx.n(250, 3000)):
        d = ctx.scratch('inspect')
        cases.append(inspecth.case(ctx.rng, d))
        shutil.rmtree(d, ignore_errors=True)
    ctx.report(cases, ctx.judge('InspectTrace', cases, workers=8))
    ctx.extra['figures'] = sum(len(c['calls']) for c in cases)
    for c in cases[:3]:
        ctx.sample([dict(op=x['op'], z=x['z'], out=x['out']) for x in c['calls']])
