"""C09: parameters come from their own file, converted as declared; files of another version are refused"""
import os
import shutil

import auxh


def run(ctx):
    ctx.model_check('MCAux', 'SPECIFICATION Spec\nCONSTANTS Places={1,2} Attrs={"a","b"} Vals={"u","v"} MaxNew=%d\nCHECK_DEADLOCK FALSE\nINVARIANT OwnValue\n'
                    % ctx.n(3, 5), workers=8)
    cases = []
    for _ in range(ctx.n(120, 1500)):
        d = ctx.scratch('aux')
        cases.append(auxh.Case(ctx.rng, d).run(ctx.rng.randint(10, 40)))
        shutil.rmtree(d, ignore_errors=True)
    ctx.report(cases, ctx.judge('AuxTrace', cases, workers=8))
    ctx.extra['files loaded'] = sum(s['op'] == 'new' for c in cases for s in c['steps'])
    ctx.extra['parameters read'] = sum(s['op'] == 'get' for c in cases for s in c['steps'])
    for c in cases[:2]:
        ctx.sample([[s['op'], s['id'], s['cls'], s['attr'], s['res'], s['got']] for s in c['steps']][:12])
    ctx.assumptions = ['numbers up to 2e6 in steps of 1/1000, angles in degrees']
