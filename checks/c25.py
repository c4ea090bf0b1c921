"""C25: progress reported anywhere in a tree of monitors reaches the root scaled and labelled; cancellation reaches everyone"""
import monh


def run(ctx):
    ctx.model_check('MCMonitors', '''SPECIFICATION Spec
CONSTANTS MaxMon=%d Works={64,128} Shares={64,128,256}
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
INVARIANT NeverMore Complete
''' % ctx.n(3, 4), workers=8)
    cases = []
    for k in range(ctx.n(600, 6000)):
        cases.append(monh.record(ctx.rng, ctx.rng.choice(['rec', 'rec', 'con', 'con', 'null']), ctx.rng.randint(4, 28)))
    ctx.report(cases, ctx.judge('MonitorTrace', cases, workers=8))
    ctx.extra['reports'] = sum(s['op'] == 'progress' for c in cases for s in c['steps'])
    for c in cases[:2]:
        ctx.sample([c['kind']] + [[s['op'], s['i'], s['work'], s['msg'], s['got']] for s in c['steps']][:10])
    ctx.assumptions = ['monitors are used as documented: start before progress, children end before their parent, no more work than announced']
