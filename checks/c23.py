"""C23: the variables of a product read back as the quantities they stand for"""
import producth
import shutil


MC = '''SPECIFICATION Spec
CONSTANTS Lo=0 Hi=3 D=2 O=3 Top=%d Width=%d Recs=2 Masks=TRUE
CHECK_DEADLOCK FALSE
INVARIANT Own Complete
'''


def run(ctx):
    ctx.model_check('MCProduct', MC % ((6, 2) if ctx.thorough else (12, 1)), workers=8)
    cases = []
    for i in range(ctx.n(90, 900)):
        d = ctx.scratch('product')
        cases.append(producth.case(ctx.rng, ['s3', 'extended', 'l1bs'][i % 3], d))
        shutil.rmtree(d, ignore_errors=True)
    ctx.report(cases, ctx.judge('ProductTrace', cases, workers=8))
    ctx.extra['values'] = sum(len(a) for c in cases for v in c['obs'].values() for a in v)
    ctx.extra['missing'] = sum(x == [] for c in cases for v in c['obs'].values() for a in v for x in a)
    for c in cases[:2]:
        ctx.sample([c['kind'], {k: c['obs'].get(k) for k in ('lat', 'alt', 'UTC_day')}])
    ctx.assumptions = ['quantities in tenths of the resolution of their variable']
