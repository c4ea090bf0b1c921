"""C26: every record is read with its own values, in any order"""
import shutil

import readerh


def run(ctx):
    ctx.model_check('MCReader', 'SPECIFICATION Spec\nCONSTANTS Vars={"v","w"} MaxLen=%d MaxChunk=4 MaxGets=%d\nCHECK_DEADLOCK FALSE\nINVARIANT OwnValue\n'
                    % (ctx.n(5, 9), ctx.n(2, 3)), workers=8)
    cases = []
    for _ in range(ctx.n(40, 400)):
        d = ctx.scratch('reader')
        cases.append(readerh.Case(ctx.rng, d).run(ctx.rng.randint(20, 60)))
        shutil.rmtree(d, ignore_errors=True)
    ctx.report(cases, ctx.judge('ReaderTrace', cases, workers=8))
    for op in ('open', 'get', 'next', 'raw', 'globals'):
        ctx.extra[op] = sum(s['op'] == op for c in cases for s in c['steps'])
    ctx.extra['files'] = sum(len(c['files']) for c in cases)
    for c in cases[:2]:
        ctx.sample([[s['op'], s.get('id', 0), s.get('i', 0), s.get('res', '')] for s in c['steps']][:15])
    ctx.assumptions = ['values in steps of 1/1000; gains of 0, 20, 40 dB; pointing pitch 0, +-60, 90, 180 degrees']
