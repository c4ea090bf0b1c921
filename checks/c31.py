"""C31: the configured azimuth window weights the pulses of a burst"""
import chaincases as cc
from checks import chaincheck as ck

MC = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Bounded Symmetric Inside Ends\n'


def run(ctx):
    ctx.model_check('MCWindow', MC, workers=8)
    rng = ctx.rng
    plans = []
    for i in range(ctx.n(32, 240)):
        pulses = 8
        p = cc.Plan(ctx, {})
        b = ck.bursts(rng, 'gaps', p_bad=.1)
        shape = ['hamming', 'hanning', 'boxcar', 'hamming', 'hanning', 'none'][i % 6]
        width = rng.choice((2, 3, 4, 5, 7, 8) if shape == 'boxcar' else (2, 3, 4, 5, 7))
        p.processor('k', cnf=ck.conf(rng, flag_azimuth_processing_method_cnf=['exact', 'approx'][i // 6 % 2],
                                     flag_azimuth_windowing_method_cnf=shape, azimuth_window_width_cnf=width, **ck.cal(rng)))
        start = pulses // 2 - width // 2
        for x in b:
            x['pl'] = max(0, min(pulses - 1, rng.choice([rng.randint(0, pulses - 1), rng.randint(start - 1, start + width), start, start + width - 1])))
            x['a'] = 120
            x['c2'] = [1, 1, 1]
            x['c1'] = rng.choice([1, 2])
            x['g'] = 1
        p.run('k', b, want=('refusal', 'count', 'place', 'stack', 'window'))
        plans.append(p)
    ck.judge(ctx, plans)
