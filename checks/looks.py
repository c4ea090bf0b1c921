"""shared by the checks of range alignment, masks and multilooking"""
import chaincases as cc
from checks import chaincheck as ck

MC = '''SPECIFICATION Spec
CONSTANTS N=3 Zp=%d MaxLooks=%d MaxShift=4 Dists={0,1} Powers={1,5}
CHECK_DEADLOCK FALSE
INVARIANT Masks Average Bounded Neutral
'''


def model(ctx):
    ck.model(ctx)
    ctx.model_check('MCLooks', MC % ((2, 3) if ctx.thorough else (2, 2)), workers=8, timeout=1500)


def windows(rng, bursts, style, top):
    """window delays (thousandths of a sample): constant, drifting or jumping"""
    w = rng.choice([0, 0, 1300, -4700])
    for b in bursts:
        if style == 'drift':
            w += rng.randint(-900, 900)
        elif style == 'jump' and rng.random() < .3:
            w = rng.randint(-top, top)
        elif style == 'steps' and rng.random() < .3:
            w += rng.choice([-9000, -3000, -1000, 1000, 2000, 8000])
        b['w'] = max(-top, min(top, w))


def weights(rng):
    n = 250
    du = rng.choice([20, 30, 40])
    if rng.random() < .3:
        return dict(u0=-n * du // 2, du=du, w=[rng.randint(0, 1000) for _ in range(n)])
    ws, w = [], 500
    for i in range(n):
        w = max(0, min(1000, w + rng.randint(-200, 200)))
        ws.append(w)
    return dict(u0=-n * du // 2 + rng.randint(-500, 500), du=du, w=ws)


def angle(rng):
    lo = 10 * rng.choice([-390, -250, -120, -60, -20, 30]) + 2
    hi = 10 * rng.choice([-10, 40, 90, 180, 260, 390]) + 2
    return (min(lo, hi), max(lo, hi))


def plan(ctx, i, kind=None, tone=False, masks=True, avoid=None, aw=False, cnf=None, samples=None):
    rng = ctx.rng
    p = cc.Plan(ctx, {'samples': samples or rng.choice([8, 16, 32, 32, 64]), 'zp': rng.choice([1, 2, 2, 4]) if not tone else rng.choice([2, 4])})
    b = ck.bursts(rng, kind or 'gaps', p_bad=rng.choice([0, .1]) if kind in (None, 'gaps') else 0, p_back=.1)
    for x in b:
        x['g'] = x['c1'] = 1
        x['s0'] = 0
        if i % 3 == 0:
            x['cog_cor'] = rng.randint(-2000, 2000)
            x['satpitch'] = rng.randint(-200, 200)
        if rng.random() < .5:
            x['pitch'] = 0
    windows(rng, b, rng.choice(['flat', 'drift', 'drift', 'jump', 'steps']), 12000 if kind in (None, 'gaps') else 3000)
    if tone:
        for x in b:
            x['tone'] = rng.randint(0, p.geom.samples - 1)
            x['c2'] = [1, 1, 1]
    c = {'flag_stack_masking_cnf': masks, 'flag_avoid_zeros_in_multilooking_cnf': rng.random() < .5 if avoid is None else avoid,
         'flag_antenna_weighting_cnf': aw, 'flag_slant_range_correction_cnf': rng.random() < .7,
         'flag_doppler_range_correction_cnf': rng.random() < .7}
    c.update(cnf or {})
    p.processor('k', cnf=ck.conf(rng, **c), angle=angle(rng) if masks and rng.random() < .5 else None,
                weights=weights(rng) if aw else None)
    return p, b
