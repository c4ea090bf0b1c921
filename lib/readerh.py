"""Writes L1A products with known contents and records what the real readers give."""
import math
import os

import netCDF4 as nc
import numpy as np

import l1agen
import vlib
from l1agen import SFX

COLS = 3
INTS = list(l1agen.SCALARS_I)
FLOATS = l1agen.SCALARS_F
LISTED = {'lat': 'lat', 'lon': 'lon', 'agc_ku': 'agc', 'pitch_sat_pointing': 'pitch'}
ARRAYS = ['i_meas_ku', 'q_meas_ku', 'burst_power_cor_ku', 'burst_phase_cor_ku', 'gprw_meas_ku']
ANGLES = {'lat_sar_sat', 'lon_sar_sat', 'roll_sar', 'pitch_sar', 'yaw_sar'}
COPIED = '''time_sar_ku isp_coarse_time isp_fine_time sral_fine_time days seconds burst_sar_ku lat_sar_sat lon_sar_sat alt_sar_sat
 alt_rate_sat_sar x_vel_sat_sar y_vel_sat_sar z_vel_sat_sar roll_sar pitch_sar yaw_sar roll_sral_mispointing pitch_sral_mispointing
 yaw_sral_mispointing cog_cor h0_sar uso_cor cor2_sar flag_time_status nav_bul_status nav_bul_source source_seq_count oper_instr SAR_mode
 cl_gain acq_stat dem_eeprom loss_track h0_nav_dem h0_applied cor2_nav_dem cor2_applied dh0 agccode_ku range_ku int_path_cor_ku agc_ku
 sig0_cal_ku surf_type'''.split()
BAD = 2000000001


def milli(x, tol=1e-9):
    try:
        x = float(x)
    except Exception:
        return BAD
    if not math.isfinite(x) or abs(x) > 2e6:
        return BAD
    v = round(x * 1000)
    return int(v) if abs(x * 1000 - v) <= tol * max(1, abs(v)) + 1e-5 else BAD + 1


def millis(a):
    return [milli(x, 1e-7) for x in np.asarray(a, float).ravel()]


class Case:
    def __init__(self, rng, d):
        self.rng, self.d = rng, d
        self.files, self.paths, self.steps = [], [], []
        self.ds, self.its = [], []
        self.geom = l1agen.Geom()
        self.confs = 0

    def make(self):
        """a product"""
        r = self.rng
        n = r.choice([1, 2, 5, 13, 39, 40, 40, 41, 79, 80, 80, 81, 97, 120])
        rows = r.choice([2, 3, 4])
        names = [v for v in INTS + FLOATS if v not in LISTED] + ARRAYS
        salts = r.sample(range(1, 40 * len(names)), len(names))
        a = {v: 1000 * s for v, s in zip(names, salts)}
        b = {v: 1000 * r.choice([1, 1, 2, 3]) for v in names}
        for v in FLOATS:
            if v in a and r.random() < .5:
                a[v] += r.randint(-999, 999)
                b[v] += r.randint(-300, 300)
        for v in ('cog_cor', 'range_ku'):
            a[v], b[v] = a[v] // 2 * 2, b[v] // 2 * 2
        a['alt'] = 814500000 + r.randint(-9999, 9999)
        a['range_ku'] += 814400000
        step = r.choice([1, 37, 400]) * r.choice([1, -1])
        la, lo = r.choice([0, r.randint(-40000, 40000)]), r.choice([0, r.randint(-120000, 120000)])
        lat = [0 if la == 0 and r.random() < .5 else la + step * i for i in range(n)]
        lon = [lo + r.choice([1, 30]) * i for i in range(n)]
        for i in range(n):
            if r.random() < .12:
                lat[i], lon[i] = 0, 0
            elif r.random() < .1:
                lat[i], lon[i] = 0, r.choice([90000, 180000, -90000])
            elif r.random() < .05:
                lat[i], lon[i] = r.choice([90000, -90000]), 0
        if not any(lat) and not any(lon):
            lon[0] = 5000
        if r.random() < .4:
            pitch = [0] * n
        else:
            pitch = [r.choice([0, 60000, 90000, 180000, -60000]) for _ in range(n)]
        agc = [r.choice([0, 20000, 40000]) for _ in range(n)]
        g = {k: v + str(r.randint(0, 99)) for k, v in l1agen.GLOBALS.items() if k == 'product_name' or r.random() < .8}
        f = {'n': n, 'rows': rows, 'a': a, 'b': b, 'lat': lat, 'lon': lon, 'agc': agc, 'pitch': pitch, 'globals': g}
        path = os.path.join(self.d, 'p%d.nc' % len(self.files))
        self.write(path, f, salts)
        self.files.append(f)
        self.paths.append(path)

    def write(self, path, f, salts):
        r, n, rows = self.rng, f['n'], f['rows']
        ds = nc.Dataset(path, 'w', format='NETCDF4')
        t = 'time' + SFX
        ds.createDimension(t, n if r.random() < .7 else None)
        ds.createDimension('echo_sample_ind', COLS)
        ds.createDimension('sar_ku_pulse_burst_ind', rows)
        ds.createDimension('sar_c_pulse_burst_ind', 1)
        ds.createDimension('ltm_max_ind', rows)
        for k, m in (('echo_sample_ind', COLS), ('sar_ku_pulse_burst_ind', rows), ('sar_c_pulse_burst_ind', 1), ('ltm_max_ind', rows)):
            ds.createVariable(k, 'i2', (k,))[:] = np.arange(m)
        i = np.arange(n)
        for v in INTS + FLOATS:
            m = np.array(f[LISTED[v]]) if v in LISTED else f['a'][v] + f['b'][v] * i
            if v in INTS:
                var = ds.createVariable(v + SFX, 'i4', (t,), fill_value=int(m[0]) // 1000 if r.random() < .1 else None)
                var[:] = m // 1000
            elif v not in ('lat', 'lon') and r.random() < .3:          # packed; a limit may be exactly at a place
                var = ds.createVariable(v + SFX, 'i4', (t,), fill_value=int(m[-1]) if r.random() < .3 else None)
                var.scale_factor = .001
                var.set_auto_scale(False)
                var[:] = m
            else:
                var = ds.createVariable(v + SFX, 'f8', (t,))
                var[:] = m / 1000.0
        shapes = {'i_meas_ku': (rows, COLS), 'q_meas_ku': (rows, COLS), 'burst_power_cor_ku': (rows,), 'burst_phase_cor_ku': (rows,),
                  'gprw_meas_ku': (rows, COLS)}
        dims = {'i_meas_ku': ('sar_ku_pulse_burst_ind', 'echo_sample_ind'), 'q_meas_ku': ('sar_ku_pulse_burst_ind', 'echo_sample_ind'),
                'burst_power_cor_ku': ('sar_ku_pulse_burst_ind',), 'burst_phase_cor_ku': ('sar_ku_pulse_burst_ind',),
                'gprw_meas_ku': ('ltm_max_ind', 'echo_sample_ind')}
        for v in ARRAYS:
            s = shapes[v]
            k = np.arange(int(np.prod(s))).reshape(s)
            m = (f['a'][v] + f['b'][v] * i).reshape((n,) + (1,) * len(s)) + 1000 * k
            ds.createVariable(v + SFX, 'f8', (t,) + dims[v])[:] = m / 1000.0
        for k, v in f['globals'].items():
            ds.setncattr(k, v)
        ds.close()

    def record(self, p, cst):
        s = {}
        for k in COPIED:
            x = getattr(p, k)
            s[k] = milli(math.degrees(x) if k in ANGLES else x)
        w = np.asarray(p.waveform_cor_sar)
        pos = [[int(round(float(getattr(p, a + '_sar_' + k)))) for a in 'xyz'] for k in ('sat', 'surf')]
        return {'num': int(p.counter) if p.counter is not None else -9, 's': s, 'win': milli(p.win_delay_sar_ku * cst.c / 2, 1e-8),
                'echoi': millis(w.real), 'echoq': millis(w.imag), 'power': millis(p.cal1_power), 'phase': millis(p.cal1_phase),
                'cal2': millis(p.cal2_array), 'sat': pos[0], 'surf': pos[1]}

    def attempt(self, st, fn):
        try:
            st['res'] = 'ok'
            with vlib.limited():
                fn()
        except StopIteration:
            st['res'] = 'end'
        except Exception as e:
            st['res'] = 'error ' + type(e).__name__
        self.steps.append(st)

    NOROI = {'minlat': [], 'maxlat': [], 'minlon': [], 'maxlon': []}

    def open(self):
        from dedop.conf import ConfigurationFile, CharacterisationFile, ConstantsFile
        from dedop.data.input.l1a import L1ADataset
        r = self.rng
        k = r.randrange(len(self.files))
        f = self.files[k]
        roi = {x: [] for x in self.NOROI}
        if r.random() < .5:
            for ax in ('lat', 'lon'):
                if r.random() < .6:
                    two = sorted(r.choice(f[ax]) for _ in range(2))
                    if r.random() < .8:
                        roi['min' + ax] = [two[0] - r.choice([0, 0, 5])]
                    if r.random() < .8:
                        roi['max' + ax] = [two[1] + r.choice([0, 0, 5])]
        cal2 = r.randrange(f['rows'])
        cnf = {'flag_cal2_table_index_cnf': cal2}
        cnf.update({x[:3] + '_' + x[3:] + '_cnf': (v[0] / 1000.0 if v else None) for x, v in roi.items()})
        cd = os.path.join(self.d, 'conf%d' % self.confs)
        self.confs += 1
        os.mkdir(cd)
        paths = self.geom.write_conf(cd, cnf=cnf)
        cst = ConstantsFile(paths['CST'])
        chd = CharacterisationFile(cst, paths['CHD'])
        conf = ConfigurationFile(paths['CNF'])
        st = {'op': 'open', 'file': k + 1, 'roi': roi, 'cal2': cal2, 'first': 0, 'last': 0, 'len': 0}
        made = []

        def go():
            d = L1ADataset(self.paths[k], cst=cst, chd=chd, cnf=conf)
            made.append(d)
            st['first'], st['last'], st['len'] = milli(d.first_time()), milli(d.last_time()), len(d)
            if d.max_index != st['len']:
                st['len'] = -1
        self.attempt(st, go)
        self.ds.append((made[0] if made and st['res'] == 'ok' else None, 'set', k, cst))

    def reader(self):
        from dedop.data.input.netcdf_reader import NetCDFReader
        k = self.rng.randrange(len(self.files))
        size = self.rng.choice([1, 2, 3, 7, 13, 40, 64])
        st = {'op': 'chunk', 'file': k + 1, 'roi': self.NOROI, 'cal2': 0, 'size': size}
        made = []
        self.attempt(st, lambda: made.append(NetCDFReader(self.paths[k], chunk_size=size)))
        self.ds.append((made[0] if made else None, 'reader', k, None))

    def index(self, n):
        r = self.rng
        x = r.random()
        if x < .55:
            return r.randrange(n)
        if x < .8:
            return min(n - 1, max(0, r.choice([39, 40, 41, 79, 80, 81, n - 1, n - 2, 0, 1])))
        return n + r.choice([0, 0, 1, 2, 40 - n % 40, 80 - n % 40, r.randrange(60)])

    def run(self, steps):
        from dedop.data.input.l1a.enums import L1AVariables
        r = self.rng
        for _ in range(r.choice([1, 1, 2])):
            self.make()
        self.open()
        self.reader()
        for _ in range(steps):
            x = r.random()
            live = [i for i, d in enumerate(self.ds) if d[0] is not None]
            sets = [i for i in live if self.ds[i][1] == 'set']
            if x < .06 and len(self.ds) < 5:
                self.open()
            elif x < .09 and len(self.ds) < 5:
                self.reader()
            elif x < .3 and sets:
                i = r.choice(sets)
                d, _, k, cst = self.ds[i]
                st = {'op': 'get', 'id': i + 1, 'i': self.index(self.files[k]['n'])}

                def go():
                    st['rec'] = self.record(d[st['i']], cst)
                self.attempt(st, go)
            elif x < .55 and sets:
                if not self.its or r.random() < .1:
                    i = r.choice(sets)
                    self.its.append((iter(self.ds[i][0]), i))
                    self.steps.append({'op': 'iter', 'id': i + 1})
                j = r.randrange(len(self.its))
                it, i = self.its[j]
                for _ in range(r.choice([1, 1, 3, 15])):
                    st = {'op': 'next', 'id': i + 1, 'it': j + 1}

                    def go():
                        p = next(it)
                        if p is None:
                            raise LookupError
                        st['rec'] = self.record(p, self.ds[i][3])
                    try:
                        self.attempt(st, go)
                    finally:
                        if st['res'] == 'error LookupError':
                            st['res'] = 'none'
                    if st['res'] == 'end' or st['res'].startswith('error'):
                        break
            elif x < .58 and sets:
                i = r.choice(sets)
                st = {'op': 'globals', 'id': i + 1}

                def go():
                    g = self.ds[i][0].read_globals()
                    st['rec'] = {a: ('none' if getattr(g, a) is None else '=' + str(getattr(g, a))) for a in l1agen.GLOBALS}
                self.attempt(st, go)
            elif live:
                i = r.choice(live)
                d, _, k, _ = self.ds[i]
                for _ in range(r.choice([1, 2, 6])):
                    v = r.choice(INTS + FLOATS)
                    st = {'op': 'raw', 'id': i + 1, 'v': v, 'i': self.index(self.files[k]['n'])}

                    def go():
                        st['val'] = milli(d.get_value(L1AVariables[v + SFX], st['i']))
                    self.attempt(st, go)
        for d in self.ds:
            if d[0] is not None:
                d[0].close()
        return {'files': self.files, 'steps': self.steps}
