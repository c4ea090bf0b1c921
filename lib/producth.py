"""Writes products with the real writers from generated records and reads them back."""
import math
import os
import warnings

import netCDF4 as nc
import numpy as np

import l1agen
import vlib

MEGA = 1000000
# step of each quantity (its unit: that of the product, angles of the satellite in degrees)
STEP = dict(time=1e-6, prevtai=1e-6, prevsec=1e-6, prevday=1, daylen=1e-6, gps=1e-6, lat=1e-7, lon=1e-7, alt=1e-5, altrate=1e-3,
            x=1e-6, y=1e-6, z=1e-6, vx=1e-6, vy=1e-6, vz=1e-6, xs=1e-6, ys=1e-6, zs=1e-6, range=1e-5, uso=1e-5, path=1e-5, cog=1e-5,
            agc=1e-3, sigma0=1e-3, sig0cal=1e-3, sigma0beam=1e-3, std=1e-7, skew=1e-7, kurt=1e-7, max=1e-5, roll=1e-5, pitch=1e-5, yaw=1e-5,
            mroll=1e-5, mpitch=1e-5, myaw=1e-5, startlook=1e-7, stoplook=1e-7, startbeam=1e-7, stopbeam=1e-7, look=1e-7, beam=1e-7,
            beamused=1e-7, wave=1e-4, peak=1e-4, si=1e-4, sq=1e-4)
# packed type and offset (in steps), steps per quantum: where the values come from, not what is expected of them
RANGE = dict(lat=('i4', 10, 0), lon=('i4', 10, 0), alt=('i4', 10, 7 * 10 ** 10), altrate=('i2', 10, 0), range=('i4', 10, 7 * 10 ** 10),
             uso=('i4', 10, 0), path=('i4', 10, 0), cog=('i2', 10, 0), agc=('i4', 10, 0), sigma0=('i4', 10, 0), sig0cal=('i4', 10, 0),
             sigma0beam=('i4', 10, 0), std=('u4', 10, 0), skew=('i4', 10, 0), kurt=('i4', 10, 0), max=('u4', 10, 0), roll=('i2', 10, 0),
             pitch=('i2', 10, 0), yaw=('i2', 10, 0), mroll=('i2', 10, 0), mpitch=('i2', 10, 0), myaw=('i2', 10, 0), startlook=('i2', 10, 0),
             stoplook=('i2', 10, 0), startbeam=('i2', 10, 15700000), stopbeam=('i2', 10, 15700000), look=('i2', 10, 0),
             beam=('i2', 10, 15700000), beamused=('i2', 10, 15700000), wave=('u4', 10, 0))
PLAIN = dict(isp_coarse_time='u4', isp_fine_time='i4', sral_fine_time='u4', flag_time_status='i1', nav_bul_status='i1', nav_bul_source='i1',
             source_seq_count='u2', oper_instr='i1', SAR_mode='i1', cl_gain='i1', acq_stat='i1', dem_eeprom='i1', loss_track='i1',
             h0_nav_dem='u4', h0_applied='u4', cor2_nav_dem='i2', cor2_applied='i2', dh0='i4', agccode='i1', surf_type='i1',
             size='u2', used='u2', first='i4', last='i4', count='i4')
FLOATS = ['x', 'y', 'z', 'vx', 'vy', 'vz', 'xs', 'ys', 'zs']
LISTS = ['look', 'beam', 'beamused', 'sigma0beam']
BURST = dict(mroll='roll_sral_mispointing', mpitch='pitch_sral_mispointing', myaw='yaw_sral_mispointing', uso='uso_cor', path='int_path_cor_ku',
             cog='cog_cor', agc='agc_ku', sig0cal='sig0_cal_ku', agccode='agccode_ku')
SURFACE = dict(time='time_surf', prevtai='prev_tai', prevsec='prev_utc_secs', prevday='prev_utc_days', daylen='curr_day_length', alt='alt_sat',
               altrate='alt_rate_sat', x='x_sat', y='y_sat', z='z_sat', vx='x_vel_sat', vy='y_vel_sat', vz='z_vel_sat', xs='x_surf', ys='y_surf',
               zs='z_surf', sigma0='sigma0_scaling_factor', std='stack_std', skew='stack_skewness', kurt='stack_kurtosis', max='stack_max',
               startlook='start_look_angle', stoplook='stop_look_angle', startbeam='start_beam_angle', stopbeam='stop_beam_angle',
               look='look_angles_surf', beam='beam_angles_surf', beamused='beam_angles_start_stop', sigma0beam='sigma0_scaling_factor_beam',
               size='data_stack_size', used='n_beams_start_stop', first='start_burst_index', last='stop_burst_index')
RADIANS = dict(lat='lat_surf', lon='lon_surf', roll='roll_sat', pitch='pitch_sat', yaw='yaw_sat')


def limits(t):
    b = int(t[1]) * 8
    return (-(1 << b - 1), (1 << b - 1) - 1) if t[0] == 'i' else (0, (1 << b) - 1)


def pick(rng, t, d, off, wild):
    """mostly ordinary values, some at and beyond what the type can hold"""
    lo, hi = limits(t)
    r = rng.random()
    if r < wild:
        e = rng.choice([lo, hi])
        return off + e * d + rng.choice([-1, 1]) * rng.choice([0, 5, 12, 20, 150, 7919, 10 ** 6 + 1, (hi - lo) * d // 3, (hi - lo + 1) * d])
    if r < wild + .15:
        return off + rng.choice([0, 1, -1, 5, d, -d, 7 * d + 3]) * (1 if lo else abs(1))
    return off + rng.randint(max(lo * d + 20, -10 ** rng.randint(2, 12)), min(hi * d - 20, 10 ** rng.randint(2, 12)))


class Rec:
    """quantities of a record in steps (None: not a number)"""

    def __init__(self, rng, kind, looks, bins, wild):
        q = self.q = {}
        for k, (t, d, off) in RANGE.items():
            def one():
                return None if rng.random() < wild / 4 else pick(rng, t, d, off, wild)
            if k == 'wave':
                m = {'s3': 1, 'extended': 0, 'l1bs': 1}[kind]
                if rng.random() < .1:
                    q[k] = [0] * bins
                else:
                    top = 10 ** rng.randint(2, 10)
                    q[k] = [rng.choice([rng.randint(0, top), 0, top]) if not m or rng.random() > wild else max(0, pick(rng, t, d, off, 1)) for _ in range(bins)]
                q['peak'] = [max(q[k])]
            elif k in LISTS:
                q[k] = [one() for _ in range(rng.randint(0 if k != 'sigma0beam' else 1, looks))]
            else:
                q[k] = [one()]
        for k, t in PLAIN.items():
            lo, hi = limits(t)
            q[k] = [rng.choice([lo + 2, hi, hi - 1, 0, 1, 5, rng.randint(lo + 2, hi), rng.randint(lo + 2, hi)])]
        q['agccode'] = [rng.randint(-126, 127)]
        for k in ('agc', ):
            if q[k][0] is None or abs(q[k][0]) > 200000 or kind == 'l1bs':
                q[k] = [rng.randint(-60000, 90000)]
        q['kind'] = [rng.randint(0, 2)]
        q['mask'] = [rng.choice([0, 1, bins, 32766, 32767, 40000]) if rng.random() < .3 else rng.randint(0, bins) for _ in range(rng.randint(0, looks))]
        for k in FLOATS:
            q[k] = [rng.randint(-7 * 10 ** 12, 7 * 10 ** 12)]
        q['prevday'] = [rng.randint(0, 20000)]
        q['daylen'] = [rng.choice([86400, 86400, 86401]) * MEGA]
        q['prevsec'] = [rng.choice([rng.randint(0, 86400 * MEGA - 1), 86400 * MEGA - rng.randint(1, 2 * MEGA), 86399 * MEGA])]
        q['prevtai'] = [rng.randint(10 ** 14, 8 * 10 ** 14)]
        left = q['daylen'][0] - q['prevsec'][0]
        gap = rng.choice([0, rng.randint(0, 3 * MEGA), left + rng.choice([-9, 9, 900]) if 20 < left < 3 * MEGA else 7])
        q['time'] = [q['prevtai'][0] + (gap if abs(gap - left) > 5 else left + 9)]
        rows = rng.randint(1, looks)
        top = 10 ** rng.randint(1, 9) if rng.random() > .1 else 0
        q['si'] = [rng.randint(-top, top) for _ in range(rows * bins)]
        q['sq'] = [rng.randint(-top, top) for _ in range(rows * bins)]
        self.rows, self.bins = rows, bins
        self.pos = rng.randint(0, 2)

    def real(self, k):
        v = [math.nan if x is None else x if k in PLAIN or k in ('mask', 'kind', 'prevday') else x * STEP[k] for x in self.q[k]]
        return np.array(v, float) if k in LISTS or k in ('wave', 'si', 'sq') else np.array(v) if k == 'mask' else v[0]

    def surface(self, cst, chd, kind):
        from dedop.model.surface_data import SurfaceData, SurfaceType
        from dedop.model.l1a_processing_data import L1AProcessingData
        bursts = []
        for j in range(3):
            b = {}
            for k in PLAIN:
                if hasattr(L1AProcessingData, k):
                    b[k] = self.real(k) if j == self.pos else 77
            for k, name in BURST.items():
                b[name] = self.real(k) if j == self.pos else 77
            bursts.append(L1AProcessingData(cst, chd, 100 + j, **b))
        v = {name: self.real(k) for k, name in SURFACE.items()}
        v.update({name: math.radians(self.real(k)) for k, name in RADIANS.items()})
        v['stack_bursts'] = np.array(bursts, dtype=object)
        v['closest_burst_index'] = self.pos
        v['surface_type'] = SurfaceType(self.q['kind'][0])
        v['win_delay_surf'] = 2 * self.real('range') / cst.c
        v['stack_mask_vector_start_stop'] = self.real('mask')
        v['stack_mask_vector'] = self.real('mask')
        gain = 10 ** (self.real('agc') / 10) if kind == 'l1bs' else 1
        v['waveform_multilooked'] = self.real('wave') * gain
        v['beams_range_compr_iq'] = (self.real('si') + 1j * self.real('sq')).reshape(self.rows, self.bins)
        v['beams_range_compr'] = np.abs(v['beams_range_compr_iq']) ** 2
        return SurfaceData(cst, chd, self.q['count'][0], **v)


def limbs(x):
    return [] if x is None else [x // MEGA, x % MEGA]


def steps(a, step):
    """what is read, as numbers of steps"""
    a = np.ma.atleast_1d(a)
    m = np.ma.getmaskarray(a)
    res = []
    for x, bad in zip(np.ma.getdata(a).ravel(), m.ravel()):
        x = float(x)
        res.append([] if bad or not math.isfinite(x) or abs(x) / step > 2e15 else limbs(int(round(x / step))))
    return res


def table():
    """variable -> quantity, as far as it is needed to count in its steps"""
    t = {'UTC_sec': 'time', 'GPS_time': 'time', 'time': 'time', 'orb_alt_rate': 'altrate', 'range_ku': 'range', 'uso_cor': 'uso', 'int_path_cor_ku': 'path',
         'agc_ku': 'agc', 'agc_cor_ku': 'agc', 'scale_factor_ku': 'sigma0', 'sig0_cal_ku': 'sig0cal', 'stdev_stack': 'std', 'skew_stack': 'skew',
         'kurt_stack': 'kurt', 'max_stack': 'max', 'beam_ang': 'beam', 'look_ang': 'look', 'i2q2_meas_ku': 'wave', 'i2q2_scale_factor': 'wave',
         'stack_scale_factor_ku': 'sigma0beam', 'start_look_angle_stack': 'look', 'stop_look_angle_stack': 'look', 'start_beam_ang_stack': 'beam',
         'stop_beam_ang_stack': 'beam', 'cog_cor': 'cog', 'lat': 'lat', 'lon': 'lon', 'alt': 'alt'}
    for k in 'roll', 'pitch', 'yaw':
        t[k + '_sat_pointing'] = 'roll'
        t[k + '_sral_mispointing'] = 'mroll'
    for k in 'xyz':
        t[k + '_pos'], t[k + '_vel'], t['meas_' + k + '_pos'] = 'x', 'vx', 'xs'
    return t


def attempt(kind, recs, d, looks, samples, zp):
    """write the records, read the product"""
    from dedop.conf import CharacterisationFile, ConfigurationFile, ConstantsFile
    from dedop.data.output import l1b_writer, l1bs_writer
    geom = l1agen.Geom(samples=samples, n_looks=looks, zp=zp)
    cf = geom.write_conf(d)
    out = dict(fatal='', err=[], n=0, obs={}, units={}, flags={'': dict(values=[], meanings=0)})
    path = os.path.join(d, 'out', 'p.nc')
    try:
        cst = ConstantsFile(cf['CST'])
        chd = CharacterisationFile(cst, cf['CHD'])
        cnf = ConfigurationFile(cf['CNF'])
        cls = {'s3': l1b_writer.L1BWriter, 'extended': l1b_writer.L1BWriterExtended, 'l1bs': l1bs_writer.L1BSWriter}[kind]
        w = cls(chd=chd, cnf=cnf, cst=cst, filename=path)
        w.open()
        with w:
            for r in recs:
                s = r.surface(cst, chd, kind)
                try:
                    w.write_record(s)
                    out['err'].append('ok')
                except Exception as e:
                    out['err'].append(('%s: %s' % (type(e).__name__, getattr(e, 'child', e)))[:200])
        read(kind, path, out)
    except Exception as e:
        out['fatal'] = ('%s: %s' % (type(e).__name__, e))[:200]
        out['err'] += ['not written'] * (len(recs) - len(out['err']))
    return out


def read(kind, path, out):
    sfx = '_l1bs_echo_sar_ku' if kind == 'l1bs' else '_l1b_echo_sar_ku'
    t = table()
    with nc.Dataset(path) as f:
        n = out['n'] = len(f.dimensions['time' + sfx])
        for name, var in f.variables.items():
            short = name.replace(sfx, '')
            a = var.ncattrs()
            out['units'][short] = str(var.getncattr('units')) if 'units' in a else 'no unit'
            if 'flag_values' in a or 'flag_meanings' in a:
                out['flags'][short] = dict(values=np.atleast_1d(var.getncattr('flag_values')).tolist() if 'flag_values' in a else [],
                                           meanings=len(str(var.getncattr('flag_meanings')).split()) if 'flag_meanings' in a else 0)
            if short in ('i2q2_meas_ku', ) and kind == 'extended':
                continue
            if short.endswith(('i_echoes_ku', 'q_echoes_ku', 'iq_scale_factor')):
                continue
            out['obs'][short] = [steps(var[i], STEP[t[short]] if short in t else 1) for i in range(n)]
        if kind == 'extended':
            w, p = f['i2q2_meas_ku' + sfx], f['i2q2_scale_factor' + sfx]
            out['obs']['waveform'] = [steps(w[i] * float(p[i]), STEP['wave']) for i in range(n)]
        if kind == 'l1bs':
            for k in 'iq':
                out['obs']['stack_' + k] = [steps(np.ma.asarray(f[k + '_echoes_ku' + sfx][i], float) * float(f['iq_scale_factor' + sfx][i]), STEP['si'])
                                            for i in range(n)]


def case(rng, kind, d):
    looks, samples, zp = rng.choice([1, 3, 6]), rng.choice([2, 4]), rng.choice([1, 2])
    wild = rng.choice([0, .05, .2])
    recs = [Rec(rng, kind, looks, samples * zp, wild) for _ in range(rng.randint(1, 4))]
    for r in recs:
        r.ok = True
    if rng.random() < .25:              # a list that is too long
        r = Rec(rng, kind, looks, samples * zp, 0)
        k = {'s3': 'look', 'extended': rng.choice(['look', 'beam', 'sigma0beam', 'mask']), 'l1bs': 'beamused'}[kind]
        r.q[k] = [100] * (looks + rng.randint(1, 3))
        r.ok = False
        recs.append(r)
    with warnings.catch_warnings(), vlib.limited():
        warnings.simplefilter('ignore')
        out = attempt(kind, recs, d, looks, samples, zp)
    out['kind'] = kind
    out['recs'] = [dict(ok=r.ok, q={k: [limbs(x) for x in v] for k, v in r.q.items() if kind == 'l1bs' or k not in ('si', 'sq')}) for r in recs]
    return out
