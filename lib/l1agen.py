"""Synthetic L1A products and matching auxiliary (CHD/CNF/CST) files.

The ground track is a great circle with a one dimensional geometry, so that an integer
model (spec/Chain.tla) can predict what the chain has to do.  Positions are given in
"units": 1000 units = one surface spacing (the angular azimuth beam resolution seen
from the satellite, projected onto the track).
"""
import json
import math
import os

import netCDF4 as nc
import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')

UNIT = 1000  # units per surface spacing

SCALARS_I = {  # integer like scalar variables: name -> dtype
    'burst_count_prod': 'i4', 'seq_count': 'u2', 'burst_count_cycle': 'i1',
    'flag_time_status': 'i1', 'surf_type': 'i1', 'nav_bul_status': 'i1',
    'nav_bul_source': 'i1', 'oper_instr': 'i1', 'SAR_mode': 'i1', 'cl_gain': 'i1', 'acq_stat': 'i1',
    'dem_eeprom': 'i1', 'weighting': 'i1', 'loss_track': 'i1', 'h0_nav_dem': 'u4', 'h0_applied': 'u4',
    'cor2_nav_dem': 'i2', 'cor2_applied': 'i2', 'dh0': 'i4', 'agccode_ku': 'i1', 'agccode_c': 'i1',
    'cal2_ku_ind': 'i2', 'cal1_ku_ind': 'i2',
    'isp_coarse_time': 'u4', 'isp_fine_time': 'i4', 'sral_fine_time': 'u4', 'UTC_day': 'i2',
}
SCALARS_F = ['time', 'UTC_sec', 'UTC_time_20hz', 'lat', 'lon', 'alt', 'orb_alt_rate',
             'x_pos', 'y_pos', 'z_pos', 'x_vel', 'y_vel', 'z_vel',
             'roll_sat_pointing', 'pitch_sat_pointing', 'yaw_sat_pointing',
             'roll_sral_mispointing', 'pitch_sral_mispointing', 'yaw_sral_mispointing',
             'range_ku', 'int_path_cor_ku', 'uso_cor', 'cog_cor', 'agc_ku', 'scale_factor_ku', 'sig0_cal_ku']
SFX = '_l1a_echo_sar_ku'

GLOBALS = dict(mission_name='VERIF-SAT', altimeter_sensor_name='ALT', gnss_sensor_name='GNSS',
               doris_sensor_name='DORIS', references='ref', acq_station_name='STN',
               xref_altimeter_level0='x0', xref_navatt_level0='x1', xref_altimeter_orbit='x2',
               xref_doris_uso='x3', xref_altimeter_ltm_lrm_cal1='x4', xref_altimeter_ltm_sar_cal1='x5',
               xref_altimeter_ltm_ku_cal2='x6', xref_altimeter_ltm_c_cal2='x7',
               xref_altimeter_characterisation='x8', xref_time_correlation='x9', xref_platform='x10',
               history='hist', product_name='S3A_SR_1_SRA_A__20160101')


def load_default(key):
    with open(os.path.join(REPO, 'dedop', 'ui', 'data', 'config', key + '.json')) as fp:
        return json.load(fp)


class Geom:
    """parameters of the synthetic mission"""

    def __init__(self, pulses=8, samples=8, brf=None, step=417, n_looks=16, zp=2, axis='lon', **cnf):
        self.pulses, self.samples, self.n_looks, self.zp = pulses, samples, n_looks, zp
        self.axis = axis
        self.cst = {k: v.get('value') for k, v in load_default('CST').items() if k != '__metainf__'}
        self.chd = {k: v.get('value') for k, v in load_default('CHD').items() if k != '__metainf__'}
        if axis == 'lat':   # meridian track on a sphere: same one-dimensional geometry
            self.cst['semi_minor_axis_cst'] = self.cst['semi_major_axis_cst']
            self.cst['flat_coeff_cst'] = 0.0
        self.R = self.cst['semi_major_axis_cst']
        self.h = 814500.0
        self.v = 7500.0
        c, f, prf = self.cst['c_cst'], self.chd['freq_ku_chd'], self.chd['prf_sar_chd']
        self.res = math.asin(c * prf / (2 * f * self.v * pulses))       # angular azimuth beam resolution
        self.half = math.pi / 2 - math.acos(c * prf / 4. / f / self.v)  # half of the visible angular range
        self.step = step
        self.bri = 1.0 / (brf or 25.0)
        self.cnf = cnf
        self.t0 = 1.0 / (self.chd['uso_freq_nom_chd'] * self.chd['alt_freq_multiplier_chd'])   # a range sample
        self.sample_m = self.t0 * c / 2
        # geocentric angle of one surface spacing
        self.unit_rad = self._central(self.res) / UNIT
        self.half_units = self._central(self.half) / self.unit_rad

    def _central(self, look):
        """geocentric angle between nadir point and the point of the circle seen under off-nadir angle look"""
        rs = self.R + self.h
        inc = math.asin(rs / self.R * math.sin(look))
        return inc - look

    def look(self, central):
        """off-nadir angle under which a ground point at the geocentric angle is seen"""
        return math.atan2(self.R * math.sin(central), self.R + self.h - self.R * math.cos(central))

    def curve(self, units):
        """additional delay (range samples) of a ground point this far from nadir"""
        th, rs = units * self.unit_rad, self.R + self.h
        return (math.sqrt(rs * rs + self.R * self.R - 2 * rs * self.R * math.cos(th)) - self.h) / self.sample_m

    def consts(self):
        """the constants of spec/Looks.tla"""
        d = 2000.0
        look1 = self.look(1000 * self.unit_rad) / 1000
        lam = self.cst['c_cst'] / self.chd['freq_ku_chd']
        # a Doppler shift of a chirp looks like a delay
        kd = 2 / lam * self.v * math.sin(self.look(d * self.unit_rad)) * self.chd['pulse_length_chd'] / self.chd['bw_ku_chd'] / self.t0 / d
        ks = (self.R * self.unit_rad) ** 2 / (2 * self.R) / self.sample_m * 1000
        return dict(kh=int(round(1000 * self.h / self.R)), kc=int(round(1000 / self.sample_m)), ks=int(round(ks * 1e6)), n=self.samples, zp=self.zp, kq=int(round(self.curve(d) * 1000 / d / d * 1e6)), kd=int(round(kd * 1e6)),
                    kp=int(round(math.radians(.001) / look1 * 1000)))

    def radar(self, chd):
        """the constants of spec/Sigma.tla and what is common to all looks"""
        def lg(x):
            return int(round(1e5 * math.log10(x)))
        h = dict(self.chd, **chd)
        c, re = self.cst['c_cst'], self.cst['earth_radius_cst']
        return dict(k=dict(pt=lg(h['power_tx_ant_ku_chd']), gain=int(round(1e4 * h['antenna_gain_ku_chd'])),
                           ratio=int(round(1e4 * h['ratio_trc_ku_chd'])), lam=lg(c / h['freq_ku_chd']), np=lg(self.pulses), c=lg(c),
                           ptr=lg(h['ptr_width_chd']), re=lg(re)),
                    l=dict(r=lg(self.h), s=lg(self.h + re), pri=-lg(h['prf_sar_chd']), v=lg(self.v)))

    def write_conf(self, d, cnf=None, chd=None, cst=None):
        out = {}
        over = {'CHD': dict(self.chd_overrides(), **(chd or {})),
                'CNF': dict(self.cnf_overrides(), **(cnf or {})),
                'CST': dict({k: v for k, v in self.cst.items()}, **(cst or {}))}
        for key in ('CHD', 'CNF', 'CST'):
            js = load_default(key)
            for n, v in over[key].items():
                if n in js:
                    js[n]['value'] = v
                else:
                    js[n] = {'value': v}
            p = os.path.join(d, key + '.json')
            with open(p, 'w') as fp:
                json.dump(js, fp)
            out[key] = p
        return out

    def chd_overrides(self):
        return {'N_samples_sar_chd': self.samples, 'N_ku_pulses_burst_chd': self.pulses,
                'brf_sar_chd': 1.0 / self.bri}

    def cnf_overrides(self):
        r = {'N_looks_stack_cnf': self.n_looks, 'zp_fact_range_cnf': self.zp,
             'azimuth_window_width_cnf': self.pulses, 'flag_cal2_table_index_cnf': 0}
        r.update({k: v for k, v in self.cnf.items()})
        return r


def write_l1a(path, geom, bursts, base_deg=10.0, globals_=None, extra=None, seed=0):
    """bursts: list of dicts {pos: int units, t: int ms-like ticks (bri/1000), valid: bool, day, sec, id...}"""
    n = len(bursts)
    rng = np.random.RandomState(seed)
    vals = {}
    pos = np.array([b['pos'] for b in bursts], float) * geom.unit_rad
    ang = math.radians(base_deg) + pos
    valid = np.array([b.get('valid', True) for b in bursts], bool)
    t = np.array([b['t'] for b in bursts], float) * geom.bri / 1000.0 + 5.0e8
    vals['time'] = t
    vals['UTC_sec'] = np.array([b.get('sec', 1000.0) for b in bursts], float)
    vals['UTC_day'] = np.array([b.get('day', 5787) for b in bursts])
    vals['UTC_time_20hz'] = t
    deg = np.degrees(ang)
    zero = np.zeros(n)
    if geom.axis == 'lon':
        lat, lon = np.zeros(n), np.where(valid, deg, 0.0)
        vx, vy, vz = -geom.v * np.sin(ang), geom.v * np.cos(ang), np.zeros(n)
    else:
        lat, lon = np.where(valid, deg, 0.0), np.zeros(n)
        vx, vy, vz = -geom.v * np.sin(ang), np.zeros(n), geom.v * np.cos(ang)
    vals['lat'], vals['lon'] = lat, lon
    vals['alt'] = np.full(n, geom.h)
    vals['orb_alt_rate'] = np.array([b.get('rate', 0.0) for b in bursts], float)
    vals['x_pos'], vals['y_pos'], vals['z_pos'] = zero, zero, zero
    vals['x_vel'], vals['y_vel'], vals['z_vel'] = vx, vy, vz
    vals['range_ku'] = geom.h + np.array([b.get('w', 0) for b in bursts], float) / 1000.0 * geom.sample_m
    for i, b in enumerate(bursts):
        if 'lla' in b:                  # anywhere: latitude, longitude (degrees), altitude, velocity, range
            lat[i], lon[i] = b['lla'][:2]
            vals['alt'][i] = b['lla'][2]
            vx[i], vy[i], vz[i] = b['vel']
            vals['range_ku'][i] = b['range']
    vals['agc_ku'] = np.array([b.get('agc', 30.0) for b in bursts], float)
    ids = np.array([b.get('id', i) for i, b in enumerate(bursts)])
    vals['seq_count'] = ids
    vals['burst_count_prod'] = ids
    for k, dt in SCALARS_I.items():
        if k not in vals:
            vals[k] = np.array([b.get(k, 0) for b in bursts])
    for k in SCALARS_F:
        if k not in vals:
            vals[k] = np.array([b.get(k, 0.0) for b in bursts], float)
    ds = nc.Dataset(path, 'w', format='NETCDF4')
    try:
        ds.createDimension('time_l1a_echo_sar_ku', n)
        ds.createDimension('echo_sample_ind', geom.samples)
        ds.createDimension('sar_ku_pulse_burst_ind', geom.pulses)
        ds.createDimension('sar_c_pulse_burst_ind', 2)
        ds.createDimension('ltm_max_ind', 3)
        for d, s in (('echo_sample_ind', geom.samples), ('sar_ku_pulse_burst_ind', geom.pulses),
                     ('sar_c_pulse_burst_ind', 2), ('ltm_max_ind', 3)):
            v = ds.createVariable(d, 'i2', (d,))
            v[:] = np.arange(s)
        for k, dt in SCALARS_I.items():
            v = ds.createVariable(k + SFX, dt, ('time_l1a_echo_sar_ku',))
            v[:] = vals[k]
        for k in SCALARS_F:
            v = ds.createVariable(k + SFX, 'f8', ('time_l1a_echo_sar_ku',))
            v[:] = vals[k]
        wi = np.empty((n, geom.pulses, geom.samples))
        wq = np.empty_like(wi)
        cp = np.empty((n, geom.pulses))
        cf = np.empty((n, geom.pulses))
        gp = np.empty((n, 3, geom.samples))
        for i, b in enumerate(bursts):
            # the content of a burst depends on its id only: the same burst in another file is identical
            r = np.random.RandomState(int(ids[i]) * 7919 % (2 ** 31) + seed)
            wi[i] = r.uniform(-100, 100, (geom.pulses, geom.samples))
            wq[i] = r.uniform(-100, 100, (geom.pulses, geom.samples))
            cp[i] = r.uniform(0.5, 2.0, geom.pulses)
            cf[i] = r.uniform(-0.5, 0.5, geom.pulses)
            gp[i] = r.uniform(0.5, 2.0, (3, geom.samples))
            for key, arr in (('wi', wi), ('wq', wq), ('cp', cp), ('cf', cf), ('gp', gp)):
                if key in b:
                    arr[i] = b[key]
        dims = ('time_l1a_echo_sar_ku', 'sar_ku_pulse_burst_ind', 'echo_sample_ind')
        for k, a, dd in (('i_meas_ku', wi, dims), ('q_meas_ku', wq, dims),
                         ('burst_power_cor_ku', cp, dims[:2]), ('burst_phase_cor_ku', cf, dims[:2]),
                         ('gprw_meas_ku', gp, (dims[0], 'ltm_max_ind', 'echo_sample_ind'))):
            v = ds.createVariable(k + SFX, 'f8', dd)
            v[:] = a
        for k, v in dict(GLOBALS, **(globals_ or {})).items():
            ds.setncattr(k, v)
    finally:
        ds.close()
    return vals
