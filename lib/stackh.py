"""Gives surfaces to the last steps of the real processor: statistics, multilooking and scaling factor of a stack."""
import math
import os
import warnings

import numpy as np

import l1agen
import vlib

LIM = 10 ** 9


def num(x, unit):
    """in units; what is not a number is one nobody expects"""
    x = float(x) / unit
    return int(round(x)) if math.isfinite(x) and abs(x) < LIM else LIM


def lg(x):
    return int(round(1e5 * math.log10(x)))


def power(n):
    return 10.0 ** (n / 1e5)


def processor(geom, d, **over):
    from dedop.proc.sar.processor import L1BProcessor
    cf = geom.write_conf(d, **over)
    return L1BProcessor(name='x', cnf_file=cf['CNF'], cst_file=cf['CST'], chd_file=cf['CHD'], out_path=os.path.join(d, 'out'))


def surface(p, **v):
    from dedop.model.surface_data import SurfaceData
    return SurfaceData(p.cst, p.chd, 0, **v)


def burst(p, i, **v):
    from dedop.model.l1a_processing_data import L1AProcessingData
    return L1AProcessingData(p.cst, p.chd, i, source_seq_count=i, **v)


# ---------------------------------------------------------------- scaling factor
def sigma_case(rng, d):
    n = rng.randint(1, 12)
    geom = l1agen.Geom(n_looks=rng.choice([n, n + 1, 16]), pulses=rng.choice([1, 8, 64]))
    lam = rng.choice([-165573, rng.randint(-300000, 0)])
    k = dict(pt=rng.choice([0, 84510, rng.randint(-100000, 200000)]), gain=rng.choice([0, 426000, rng.randint(0, 600000)]),
             ratio=rng.choice([0, rng.randint(-50000, 50000)]), lam=lam, np=lg(geom.pulses), c=lg(geom.cst['c_cst']),
             ptr=rng.randint(-950000, -800000), re=lg(geom.cst['earth_radius_cst']))
    chd = {'power_tx_ant_ku_chd': power(k['pt']), 'antenna_gain_ku_chd': k['gain'] / 1e4, 'ratio_trc_ku_chd': k['ratio'] / 1e4,
           'freq_ku_chd': geom.cst['c_cst'] / power(lam), 'ptr_width_chd': power(k['ptr'])}
    ls, bs, rs = [], [], []
    same = rng.random() < .2
    for j in range(n):
        if j == 0 or not same:
            r = rng.randint(560000, 620000)
            pri, v = rng.randint(-460000, -400000), rng.randint(350000, 420000)
        ls.append(dict(r=r, s=lg(power(r) + geom.cst['earth_radius_cst']), pri=pri, v=v))
        rs.append(power(r))
        u = [rng.gauss(0, 1) for _ in range(3)]
        m = math.sqrt(sum(x * x for x in u))
        bs.append(dict(agc=rng.choice([0, rng.randint(-300000, 600000)]), vel=[x / m * power(v) for x in u], pri=power(pri)))
    at = rng.randint(1, n)
    c = dict(k=k, ls=ls, agc=[b['agc'] for b in bs], closest=at, err='', mean=0, looks=[])
    try:
        with warnings.catch_warnings(), vlib.limited():
            warnings.simplefilter('ignore')
            p = processor(geom, d, chd=chd)
            bursts = [burst(p, j, agc_ku=b['agc'] / 1e4, x_vel_sat_sar=b['vel'][0], y_vel_sat_sar=b['vel'][1], z_vel_sat_sar=b['vel'][2],
                            pri_sar_pre_dat=b['pri']) for j, b in enumerate(bs)]
            s = surface(p, data_stack_size=n, range_sat_surf=np.array(rs + [0.0] * (geom.n_looks - n)), stack_bursts=np.array(bursts, object),
                        closest_burst_index=at - 1)
            p.sigma_zero_scaling(s)
            c['mean'] = num(s.sigma0_scaling_factor, 1e-4)
            c['looks'] = [num(x, 1e-4) for x in s.sigma0_scaling_factor_beam]
    except vlib.Hang as e:
        c['err'] = str(e)
    except Exception as e:
        c['err'] = '%s: %s' % (type(e).__name__, str(e)[:200])
    return c


# ---------------------------------------------------------------- statistics
def stats_case(rng, d):
    big = rng.random() < .2
    n = rng.randint(250, 400) if big else rng.choice([1, 2, 3, 4, rng.randint(5, 12), rng.randint(6, 40), rng.randint(6, 40), rng.randint(100, 249)])
    geom = l1agen.Geom(n_looks=max(n, rng.choice([n, 240, n + 3])), samples=rng.choice([2, 4]), zp=rng.choice([1, 2]))
    bins = geom.samples * geom.zp
    at = rng.randint(100, n - 100) if big else rng.randint(1, n)
    zd = [(j - at) * 400 + rng.randint(-150, 150) for j in range(1, n + 1)]
    lo, hi = max(0, at - 125), min(n - 1, at + 123)         # looks that count
    m = hi - lo + 1
    g = dict(b=1000 * lo + rng.choice([1000 * rng.randint(m // 4, max(m // 4, 3 * m // 4)), rng.randint(250 * m, max(250 * m, 750 * (m - 1)))]),
             w=rng.randint(1300, max(1400, min(60000, 500 * m))))
    if rng.random() < .1:
        g['b'] = 1000 * lo + 500 * (m - 1)
    y = [math.exp(-((1000 * j - g['b']) / g['w']) ** 2) for j in range(n)]
    odd = rng.random() < .15            # no Gaussian at all
    if odd:
        kind = rng.choice(['ends', 'sparse'])
        y = [(float(rng.random() < .2) if kind == 'sparse' else 1.0 if j in (lo, hi) else .01 * rng.random()) for j in range(n)]
        y[rng.choice([lo, hi])] = 1.0
    top = max(y)
    for j in range(n):
        if j < lo or j > hi:
            y[j] = rng.random() * .9 * top
    masked = rng.random() < .35
    mv = [0 if masked and rng.random() < .5 else rng.randint(1, bins) for _ in range(n)]
    if masked and rng.random() < .1:
        mv = [0] * n
    gain = 10 ** rng.uniform(-6, 12)
    dx, dp = (rng.choice([-1, 1]) * rng.randint(20, min(3000, 400000 // n)) for _ in 'xp')
    x0, p0 = rng.randint(-500000, 500000), rng.randint(-500000, 500000)
    if rng.random() < .2:               # the top straight below
        x0 = -(dx * g['b']) // 1000
    look = [x0 + j * dx for j in range(n)]
    point = [p0 + j * dp for j in range(n)]
    dopp = [rng.randint(-20000, 20000) for _ in range(n)]
    ids = [rng.randint(0, 10 ** 6) for _ in range(n)]
    c = dict(n=n, g=g, first=lo, zd=zd, y=[int(round(v / top * 1000)) for v in y], shape=all(mv) and m >= 6 and not odd, mv=mv, x0=x0, dx=dx, p0=p0, dp=dp,
             look=look, point=point, dopp=dopp, ids=ids,
             obs=dict(err='', max=0, std=0, centre=0, pcentre=0, skew=0, kurt=0, nuse=0, ends=dict(look=[0, 0], point=[0, 0], dopp=[0, 0], zd=[0, 0]),
                      ids=[0, 0], mv=[], look=[], zd=[]))
    o = c['obs']
    pad = geom.n_looks - n

    def arr(v):
        return np.array(v + [0.0] * pad, float)
    try:
        with warnings.catch_warnings(), vlib.limited():
            warnings.simplefilter('ignore')
            p = processor(geom, d, cnf={'flag_antenna_weighting_cnf': False})
            pw = np.zeros((geom.n_looks, bins))
            mk = np.zeros((geom.n_looks, bins))
            for j in range(n):
                mk[j, :mv[j]] = 1
                if mv[j]:
                    pw[j, :] = y[j] * gain
            half = p.cst.pi / 2
            bursts = [burst(p, i) for i in ids]
            s = surface(p, data_stack_size=n, beams_masked=pw, stack_mask=mk, stack_mask_vector=np.array(mv + [0] * pad),
                        stack_bursts=np.array(bursts, object), beam_angles_surf=half + np.array([v * 1e-6 for v in zd]),
                        look_angles_surf=np.array(look) * 1e-6, pointing_angles_surf=np.array(point) * 1e-6, doppler_angles_surf=np.array(dopp) * 1e-6)
            p.multilooking(s)
            a = p.multilooking_algorithm
            o.update(max=num(s.stack_max, 1e-4), std=num(s.stack_std, 1e-9), centre=num(a.look_angle_centre, 1e-9), pcentre=num(a.pointing_angle_centre, 1e-9),
                     skew=num(s.stack_skewness, 1e-4), kurt=num(s.stack_kurtosis, 1e-4), nuse=int(s.n_beams_start_stop))
            z = half if o['nuse'] else 0.0
            o['ends'] = dict(look=[num(s.start_look_angle, 1e-6), num(s.stop_look_angle, 1e-6)],
                             point=[num(s.start_pointing_angle, 1e-6), num(s.stop_pointing_angle, 1e-6)],
                             dopp=[num(s.start_doppler_angle, 1e-6), num(s.stop_doppler_angle, 1e-6)],
                             zd=[num(s.start_beam_angle - z, 1e-6), num(s.stop_beam_angle - z, 1e-6)])
            o['ids'] = [int(s.start_burst_index), int(s.stop_burst_index)]
            k = max(0, o['nuse'])
            o['mv'] = [int(v) for v in s.stack_mask_vector_start_stop[:k]]
            o['look'] = [num(v, 1e-6) for v in s.look_angles_start_stop[:k]]
            o['zd'] = [num(v - z, 1e-6) for v in s.beam_angles_start_stop[:k]]
    except vlib.Hang as e:
        o['err'] = str(e)
    except Exception as e:
        o['err'] = '%s: %s' % (type(e).__name__, str(e)[:200])
    return c
