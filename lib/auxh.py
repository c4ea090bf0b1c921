"""Drives the real auxiliary file classes and records what they answer."""
import gc
import json
import math
import os
import warnings

import numpy as np

import vlib

VERSION = {'CHD': 1, 'CNF': 3, 'CST': 0}


def val(t, n=0, s=''):
    return {'t': t, 'n': n, 's': s}


def milli(x):
    if not math.isfinite(x) or abs(x) > 2e6:
        return 2000000001
    v = round(x * 1000)
    return int(v) if abs(x * 1000 - v) < 1e-6 * max(1, abs(v)) else 2000000002


def of_json(v):
    """a value in the file"""
    if v is None:
        return val('null')
    if isinstance(v, bool):
        return val('bool', 1000 * v)
    if isinstance(v, (int, float)):
        return val(type(v).__name__, milli(v))
    if isinstance(v, str):
        return val('str', 0, v)
    if isinstance(v, list):
        return val('list', len(v), ','.join('%d' % milli(x) for x in v))
    return val('other')


def of_attr(v, kind):
    if v is None:
        return val('null')
    if kind == 'rad' and isinstance(v, float):
        d = milli(math.degrees(v))
        return val('angle', d)
    if isinstance(v, (bool, np.bool_)):
        return val('bool', 1000 * bool(v))
    if isinstance(v, (int, np.integer)):
        return val('int', milli(int(v)))
    if isinstance(v, (float, np.floating)):
        return val('float', milli(float(v)))
    if isinstance(v, np.ndarray):
        return val('array' if v.ndim == 1 and v.dtype == np.float64 else 'badarray', int(v.shape[0]) if v.ndim else 0,
                   ','.join('%d' % milli(float(x)) for x in v.ravel()))
    if hasattr(v, 'value') and hasattr(v, 'name'):
        return val('enum', 0, str(v.value))
    if isinstance(v, list):
        return of_json(v)
    return val('str', 0, v) if isinstance(v, str) else val('other', 0, type(v).__name__)


ATTRS = {
    'CST': 'c pi semi_major_axis semi_minor_axis earth_radius flat_coeff sec_in_day',
    'CHD': 'mean_sat_alt n_samples_sar n_ku_pulses_burst freq_ku pulse_length bw_ku power_tx_ant_ku antenna_gain_ku uso_freq_nom '
           'alt_freq_multiplier prf_sar brf_sar antenna_weights antenna_angles antenna_angles_spacing look_angle_mask_min look_angle_mask_max '
           'ptr_width fft_step_freq_ku ratio_trc_ku',
    'CNF': 'flag_cal2_correction flag_uso_correction flag_cal2_table_index flag_cal1_corrections flag_cal1_intraburst_corrections '
           'flag_surface_focusing surface_focusing_lat surface_focusing_lon surface_focusing_alt flag_azimuth_processing_method '
           'flag_azimuth_windowing_method azimuth_window_width flag_doppler_range_correction flag_slant_range_correction '
           'flag_window_delay_alignment_method flag_stack_masking flag_avoid_zeros_in_multilooking flag_surface_weighting '
           'flag_antenna_weighting zp_fact_range n_looks_stack min_lat max_lat min_lon max_lon output_format'}
ATTRS = {k: v.split() for k, v in ATTRS.items()}
SPECIAL = {'n_samples_sar': 'N_samples_sar_chd', 'n_ku_pulses_burst': 'N_ku_pulses_burst_chd', 'n_looks_stack': 'N_looks_stack_cnf',
           'output_format': 'output_format_flag_cnf'}
RAD = {'surface_focusing_lat', 'surface_focusing_lon', 'look_angle_mask_min', 'look_angle_mask_max'}
OPT = RAD - {'surface_focusing_lat', 'surface_focusing_lon'} | {'min_lat', 'max_lat', 'min_lon', 'max_lon', 'output_format'}


def jname(cls, a):
    return SPECIAL.get(a, a + '_' + cls.lower())


def good(rng, a):
    if a in ('antenna_weights', 'antenna_angles'):
        base = rng.randint(-5, 5)
        return [base + i / 8 for i in range(250)]
    if a == 'flag_azimuth_processing_method':
        return rng.choice(['approx', 'exact'])
    if a == 'flag_azimuth_windowing_method':
        return rng.choice(['none', 'boxcar', 'hanning', 'hamming'])
    if a == 'output_format':
        return rng.choice(['sentinel-3', 'extended'])
    if a.startswith('flag_'):
        return rng.choice([True, False, True, False, 0, 1])
    if a in RAD or a in OPT:
        return rng.choice([None, -90, 0, 12.5, 45, 180, -0.6, 0.6, rng.randint(-180000, 180000) / 1000])
    return rng.choice([0, 1, 2, 64, 256.0, 0.5, -2.75, rng.randint(-10 ** 6, 10 ** 6) / 1000, rng.randint(1, 1000)])


def odd(rng, a):
    return rng.choice([None, True, 0, 3.7, -3.7, 'text', '', 'EXACT', 'hann', [1, 2], [], 1000, 'extended'])


def document(rng, cls):
    p = {}
    for a in ATTRS[cls]:
        if rng.random() < (.93 if a not in OPT else .6):
            p[jname(cls, a)] = odd(rng, a) if rng.random() < .06 else good(rng, a)
    for x in rng.sample(['own_1', 'c', 'pi_cst', 'min_lat_cnf', 'freq_ku_chd', 'extra_cnf'], rng.choice([0, 0, 0, 1, 2])):
        p.setdefault(x, rng.choice([1, 'x', None]))
    v = VERSION[cls] if rng.random() < .85 else rng.choice([-1, 0, 1, 2, 3, 4])
    return v, p


class Case:
    def __init__(self, rng, scratch):
        self.rng, self.dir = rng, scratch
        self.objs, self.steps, self.n = {}, [], 0

    def new(self):
        from dedop.conf import CharacterisationFile, ConfigurationFile, ConstantsFile
        rng = self.rng
        cls = rng.choice(['CHD', 'CNF', 'CNF', 'CST'])
        v, p = document(rng, cls)
        doc = {'ok': True, 'v': v, 'p': sorted([[k, of_json(x)] for k, x in p.items()], key=lambda e: e[0])}
        full = {k: dict({'value': x}, **({'units': 'm'} if rng.random() < .5 else {})) for k, x in p.items()}
        if v >= 0:
            full['__metainf__'] = {'version': v, 'changelog': []}
        items = list(full.items())
        rng.shuffle(items)
        text = json.dumps(dict(items), indent=rng.choice([None, 2]))
        if rng.random() < .03:
            text = text[:len(text) // 2]
            doc.update(ok=False, p=[])
        path = os.path.join(self.dir, rng.choice(['%s.json' % cls, '%s%d.json' % (cls, self.n)]))
        with open(path, 'w') as fp:
            fp.write(text)
        over = {}
        if rng.random() < .3:
            for a in rng.sample(ATTRS[cls], 2):
                over[jname(cls, a)] = good(rng, a)
        mode = rng.random()
        rec = {'op': 'new', 'id': 0, 'cls': cls, 'doc': doc, 'over': sorted([[k, of_json(x)] for k, x in over.items()], key=lambda e: e[0]), 'attr': '',
               'res': 'ok', 'got': val('null'), 'warn': []}
        o = None
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            try:
                if cls == 'CHD':
                    cst = ConstantsFile(c_cst=3e8)
                    o = CharacterisationFile(cst, path, **over) if mode < .5 else CharacterisationFile(cst, filename=path, **over)
                else:
                    k = ConfigurationFile if cls == 'CNF' else ConstantsFile
                    o = k(path, **over) if mode < .5 else k(filename=path, **over)
            except Exception as e:
                rec['res'] = type(e).__name__
            known = [n for n in list(p) + ['__metainf__'] if any(str(w.message).endswith(n) or (n + ' ') in str(w.message) for w in ws)]
        rec['warn'] = sorted(known)
        self.n += 1
        rec['id'] = self.n
        self.steps.append(rec)
        if o is not None:
            self.objs[self.n] = (cls, o)
        if rng.random() < .5:
            os.remove(path)

    def get(self):
        rng = self.rng
        i = rng.choice(sorted(self.objs))
        cls, o = self.objs[i]
        for a in rng.sample(ATTRS[cls], min(len(ATTRS[cls]), rng.choice([1, 3, 8]))):
            rec = {'op': 'get', 'id': i, 'cls': cls, 'doc': {'ok': True, 'v': 0, 'p': []}, 'over': [], 'attr': a, 'res': 'ok', 'warn': []}
            try:
                with vlib.limited():
                    rec['got'] = of_attr(getattr(o, a), 'rad' if a in RAD else '')
            except Exception as e:
                rec['got'] = val('error')
                rec['_err'] = str(e)[:100]
            self.steps.append(rec)

    def run(self, n):
        for _ in range(n):
            r = self.rng.random()
            if not self.objs or r < .3:
                self.new()
            elif r < .4:
                # the object is not needed any more
                del self.objs[self.rng.choice(sorted(self.objs))]
                gc.collect()
            else:
                self.get()
        return {'steps': [{k: v for k, v in s.items() if not k.startswith('_')} for s in self.steps], '_steps': [s.get('_err') for s in self.steps]}
