"""Worker: runs the real processing chain on synthetic L1A products and projects what it
produced onto the vocabulary of spec/Chain.tla.

job: {"dir": scratch dir, "geom": {...}, "steps": [
        {"op": "new", "key": k, "name": name, "skip": bool, "cnf": {...}, "chd": {...}, "out": subdir},
        {"op": "run", "key": k, "file": name, "bursts": [...], "cancel": n or null, "base": deg}]}
result: {"obs": [one per run]}
"""
import io
import math
import os
import sys
import warnings
from contextlib import redirect_stdout

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter('ignore')

import netCDF4 as nc
import numpy as np

import l1agen
import vlib

DAY0 = 5787


def tag_burst(geom, b, noise):
    """a burst whose only non zero sample carries an amplitude: it survives all linear steps unchanged"""
    x = dict(b)
    x['agc'] = 20.0 * math.log10(b.get('g', 1))
    if not noise:
        wi = np.zeros((geom.pulses, geom.samples))
        wq = np.zeros_like(wi)
        wi[b.get('pl', 0), 0] = b.get('a', 64)
        if 'aim' in b:      # a plane wave from one direction: only the beam that points there sees it
            look = math.copysign(geom.look(abs(b['aim'] - b['pos']) * geom.unit_rad), b['aim'] - b['pos'])
            lam = geom.cst['c_cst'] / geom.chd['freq_ku_chd']
            k = 4 * math.pi / lam * geom.v * math.sin(look) / geom.chd['prf_sar_chd']
            w = b.get('a', 64) / geom.pulses * np.exp(1j * k * np.arange(geom.pulses))
            wi[:, 0], wq[:, 0] = w.real, w.imag
        if 'tone' in b:     # a point target: range sample of its echo in the window of the burst
            k = 2j * math.pi / geom.samples * b['tone']
            w = b.get('a', 64) / geom.samples * np.exp(k * np.arange(geom.samples))
            wi[0, :], wq[0, :] = w.real, w.imag
        s0 = b.get('s0', 0)
        x.update(wi=wi, wq=wq,
                 cp=np.full(geom.pulses, (float(b.get('c1', 1)) / 10 ** s0) ** 2),
                 cf=np.full(geom.pulses, b.get('ph', 0) * math.pi / 2),
                 gp=np.array([np.full(geom.samples, 1.0 / float(v) ** 2) for v in b.get('c2', [1, 1, 1])]))
    x['sig0_cal_ku'] = 20.0 * b.get('s0', 0)
    x['rate'] = b.get('rate', 0) / 10.0
    x['pitch_sat_pointing'] = b.get('satpitch', 0) / 1000.0
    for k in ('roll', 'pitch', 'yaw'):
        x[k + '_sral_mispointing'] = b.get(k, 0) / 1000.0
    for k in ('int_path_cor_ku', 'uso_cor', 'cog_cor'):
        x[k] = b.get(k, 0) / 1000.0
    x['sec'] = b.get('s', 0) * geom.bri / 100.0
    x['day'] = b.get('d', DAY0)
    x['valid'] = b.get('valid', True)
    x.pop('a', None)
    return x


class Probe:
    """made lazily: a Monitor that records and, on request, cancels"""

    @staticmethod
    def make(cancel):
        from dedop.util.monitor import Monitor

        class _P(Monitor):
            def __init__(self):
                self.total, self.started, self.dones, self.worked, self.peak, self.n, self.neg = None, 0, 0, 0.0, 0.0, 0, False
                self.records = 0
                self.polls = 0

            def start(self, label, total_work=None):
                self.started += 1
                self.total = total_work

            def progress(self, work=None, msg=None):
                if work is not None:
                    self.worked += work
                    self.neg = self.neg or work < 0
                    self.peak = max(self.peak, self.worked)
                    if work == 1:
                        self.records += 1

            def done(self):
                self.dones += 1

            def is_cancelled(self):
                self.polls += 1
                return cancel is not None and self.worked >= cancel
        return _P()


def val(ds, name, i):
    v = ds.variables[name][i]
    if np.ma.is_masked(v):
        return None
    return v


# fields of the L1B record that are those of the closest burst
CLOSEST = ('SAR_mode', 'acq_stat', 'agccode_ku', 'cl_gain', 'cor2_applied', 'cor2_nav_dem', 'dem_eeprom', 'dh0',
           'flag_time_status', 'h0_applied', 'h0_nav_dem', 'isp_coarse_time', 'isp_fine_time', 'loss_track',
           'nav_bul_source', 'nav_bul_status', 'oper_instr', 'sral_fine_time', 'surf_type')


def expect_fields(b):
    """[L1B fields, L1BS fields] of a record whose closest burst is b"""
    agc = int(round(2000 * math.log10(b.get('g', 1))))
    s0, uso, ipc = 2000 * b.get('s0', 0), 10 * b.get('uso_cor', 0), 10 * b.get('int_path_cor_ku', 0)
    return [[b.get(k, 0) for k in CLOSEST] + [agc, s0, uso, ipc],
            [b.get('agccode_ku', 0), agc, s0, uso, ipc, 10 * b.get('cog_cor', 0)] +
            [10 * b.get(k, 0) for k in ('roll', 'pitch', 'yaw')]]


def lim(x):
    """TLC's integers have 32 bits"""
    x = float(x)
    if not math.isfinite(x):
        return -999999999
    return int(round(max(-1.0e9, min(1.0e9, x))))


def ival(ds, name, i):
    v = val(ds, name, i)
    return -999 if v is None else lim(v)


def ticks(geom, text):
    import datetime as dt
    t = dt.datetime.fromisoformat(text) - dt.datetime(2000, 1, 1, tzinfo=dt.timezone.utc)
    return lim((t.total_seconds() - 5.0e8) / geom.bri * 1000)


def units(geom, a):
    """along track distance of the point seen under look angle a"""
    return lim(math.copysign(geom._central(abs(a)), a) / geom.unit_rad) if np.isfinite(a) and abs(a) < .1 else 999999


def orbit(geom, ds, sfx, i, base, meas=False):
    """along track position of the satellite (tenths of units), of its velocity, of the surface; height (dm)"""
    def ang(u, v):
        return lim((math.atan2(v, u) - math.radians(base)) / geom.unit_rad * 10)

    def get(k):
        return [float(ds[a + k + sfx][i]) for a in ('x', 'y', 'z')]
    x, y, z = get('_pos')
    vx, vy, vz = get('_vel')
    if geom.axis == 'lat':
        y, vy = z, vz
    out = [ang(x, y), ang(vy, -vx)]
    if meas:
        x, y, z = [float(ds['meas_' + a + '_pos' + sfx][i]) for a in ('x', 'y', 'z')]
        out.append(ang(x, z if geom.axis == 'lat' else y))
    return [out, lim((float(ds['alt' + sfx][i]) - geom.h) * 10)]


def project(geom, l1b, l1bs, base_deg, fmt, n_looks, t_off):
    recs = []
    n = len(l1b.dimensions['time_l1b_echo_sar_ku'])
    S = '_l1b_echo_sar_ku'
    T = '_l1bs_echo_sar_ku'
    norm = math.sqrt(geom.pulses * geom.samples * geom.zp)
    axis = 'lon' if geom.axis == 'lon' else 'lat'
    for i in range(n):
        r = {}
        r['p'] = lim((math.radians(float(l1b[axis + S][i])) - math.radians(base_deg)) / geom.unit_rad * 10)
        t = float(l1b['time' + S][i])
        r['t'] = lim((t - 5.0e8) / geom.bri * 1000 * 10)
        r['gps'] = lim((float(l1b['GPS_time' + S][i]) - 5.0e8 - 630720000 + 19) / geom.bri * 1000 * 10)
        r['day'] = int(l1b['UTC_day' + S][i])
        r['sec'] = lim(float(l1b['UTC_sec' + S][i]) / geom.bri * 100)
        r['cid'] = int(l1b['seq_count' + S][i])
        r['nb'] = int(l1b['nb_stack' + S][i])
        if fmt == 'extended':
            look = np.ma.filled(l1b['look_ang' + S][i], np.nan)
        else:
            look = -np.ma.filled(l1b['beam_ang' + S][i], np.nan)
        look = np.asarray(look, float)[:max(0, r['nb'])]
        r['looks'] = [units(geom, a) for a in look]
        wf = np.asarray(np.ma.filled(l1b['i2q2_meas_ku' + S][i], np.nan), float)
        if fmt == 'extended':
            wf = wf * float(l1b['i2q2_scale_factor' + S][i])
        tot = float(np.nanmean(wf)) * norm * norm
        r['pw'] = lim(tot)
        r['wf'] = [lim(x * norm * norm) for x in wf]
        r['rng'] = lim((float(l1b['range_ku' + S][i]) - geom.h) / geom.sample_m * 10000)
        if fmt == 'extended':
            r['mv'] = [lim(x) for x in np.ma.filled(l1b['stack_mask_vector' + S][i], -1)[:max(0, r['nb'])]]
            r['ss'] = [units(geom, float(l1b[k + '_look_angle_stack' + S][i])) for k in ('start', 'stop')]
        else:
            r['mv'], r['ss'] = [], []
        r['f'] = [ival(l1b, k + S, i) for k in CLOSEST] + [lim(float(l1b['agc_ku' + S][i]) * 100),
                                                         lim(float(l1b['sig0_cal_ku' + S][i]) * 100),
                                                         lim(float(l1b['uso_cor' + S][i]) * 1e4),
                                                         lim(float(l1b['int_path_cor_ku' + S][i]) * 1e4)]
        r['sg'] = lim(float(l1b['scale_factor_ku' + S][i]) * 100)
        r['sl'] = [lim(float(x) * 100) for x in np.ma.compressed(l1b['stack_scale_factor_ku' + S][i])] if fmt == 'extended' else []
        r['v'] = [lim(float(l1b['orb_alt_rate' + S][i]) * 100)]
        r['sat'] = orbit(geom, l1b, S, i, base_deg)
        r['s'] = []
        if l1bs is not None:
            m = len(l1bs.dimensions['time_l1bs_echo_sar_ku'])
            if i < m:
                q = {}
                q['same'] = bool(
                    float(l1bs['time' + T][i]) == t and
                    int(l1bs['UTC_day' + T][i]) == r['day'] and
                    abs(float(l1bs['UTC_sec' + T][i]) - float(l1b['UTC_sec' + S][i])) < 1e-9 and
                    abs(float(l1bs['lat' + T][i]) - float(l1b['lat' + S][i])) < 1.5e-6 and
                    abs(float(l1bs['lon' + T][i]) - float(l1b['lon' + S][i])) < 1.5e-6)
                q['cnt'] = int(l1bs['records_count' + T][i])
                q['bs'] = int(l1bs['burst_start_ind' + T][i])
                q['be'] = int(l1bs['burst_stop_ind' + T][i])
                q['nb'] = int(l1bs['nb_stack' + T][i])
                sc = float(l1bs['iq_scale_factor' + T][i])
                ii = np.asarray(np.ma.filled(l1bs['i_echoes_ku' + T][i], 0), float) * sc * norm
                qq = np.asarray(np.ma.filled(l1bs['q_echoes_ku' + T][i], 0), float) * sc * norm
                amps = []
                for b in range(min(q['nb'], ii.shape[0])):
                    mi, mq = float(np.mean(ii[b])), float(np.mean(qq[b]))
                    a = math.hypot(mi, mq)
                    ph = int(round(math.atan2(mq, mi) / (math.pi / 2))) % 4
                    amps.append([lim(a), ph])
                q['amps'] = amps
                q['peaks'] = [int(np.argmax(ii[b] ** 2 + qq[b] ** 2)) for b in range(min(q['nb'], ii.shape[0]))]
                r['sat'] += orbit(geom, l1bs, T, i, base_deg, True)
                q['ss'] = [units(geom, float(l1bs[k + '_look_angle_stack' + T][i])) for k in ('start', 'stop')]
                q['rng'] = lim((float(l1bs['range_ku' + T][i]) - geom.h) / geom.sample_m * 10000)
                q['f'] = [ival(l1bs, 'agccode_ku' + T, i), lim(float(l1bs['agc_ku' + T][i]) * 100),
                          lim(float(l1bs['sig0_cal_ku' + T][i]) * 100), lim(float(l1bs['uso_cor' + T][i]) * 1e4),
                          lim(float(l1bs['int_path_cor_ku' + T][i]) * 1e4), lim(float(l1bs['cog_cor' + T][i]) * 1e4)] + \
                         [lim(float(l1bs[k + '_sral_mispointing' + T][i]) * 1e4) for k in ('roll', 'pitch', 'yaw')]
                r['v'] += [lim(float(l1bs['orb_alt_rate' + T][i]) * 100)] + \
                          [lim(float(l1bs[k + '_sat_pointing' + T][i]) * 1e4) for k in ('roll', 'pitch', 'yaw')]
                r['s'] = [q]
        recs.append(r)
    return recs


def dataset(p, path, geom, base):
    """the input dataset: read one by one, iterated, by index"""
    from dedop.data.input.l1a import L1ADataset
    d = dict(err='', len=-1, max=-1, nx=[], it=[], ft=0, lt=0, mem=[], pos=[])

    def ident(x):
        return -1 if x is None else int(x.source_seq_count)
    try:
        a = L1ADataset(path, cst=p.cst, chd=p.chd, cnf=p.cnf)
        d['len'], d['max'] = len(a), int(a.max_index)
        d['ft'] = lim((float(a.first_time()) - 5.0e8) / geom.bri * 1000)
        d['lt'] = lim((float(a.last_time()) - 5.0e8) / geom.bri * 1000)
        while len(d['nx']) < 1000:
            try:
                d['nx'].append(ident(next(a)))
            except StopIteration:
                break
        d['it'] = [ident(x) for x in a]
        with nc.Dataset(path) as f:
            n = len(f.dimensions['time_l1a_echo_sar_ku'])
        order = sorted(range(n), key=lambda i: (i * 37) % n)       # not in reading order
        rec = {i: a[i] for i in order}
        d['mem'] = [ident(rec[i]) for i in range(n)]
        for i in range(n):
            x = rec[i]
            ang = x.lon_sar_sat if geom.axis == 'lon' else x.lat_sar_sat
            d['pos'].append(-1 if ang == 0 else lim((float(ang) - math.radians(base)) / geom.unit_rad * 10))
        a.close()
    except Exception as e:
        d['err'] = ('%s: %s' % (type(e).__name__, e))[:200]
    return d


def run_step(job, procs, st, geom):
    from dedop.proc.sar import L1BProcessor
    d = job['dir']
    if st['op'] == 'new':
        cd = os.path.join(d, 'conf_' + st['key'])
        od = os.path.join(d, st.get('out') or ('out_' + st['key']))
        os.makedirs(cd, exist_ok=True)
        os.makedirs(od, exist_ok=True)
        cf = geom.write_conf(cd, cnf=st.get('cnf'), chd=st.get('chd'), cst=st.get('cst'))
        procs[st['key']] = (L1BProcessor(st['name'], cf['CNF'], cf['CST'], cf['CHD'], od, skip_l1bs=st['skip']), st, od)
        return None
    p, pst, od = procs[st['key']]
    base = st.get('base', 10.0)
    src = os.path.join(d, 'in%d' % len(os.listdir(d)))     # the chain may keep an input open
    os.makedirs(src, exist_ok=True)
    path = os.path.join(src, st['file'])
    fmt = (pst.get('cnf') or {}).get('output_format_flag_cnf', 'extended')
    if st['bursts'] is not None:
        l1agen.write_l1a(path, geom, [tag_burst(geom, b, st.get('noise')) for b in st['bursts']], base_deg=base,
                         globals_=st.get('globals'))
    before = {f: os.stat(os.path.join(od, f)).st_mtime_ns for f in os.listdir(od)}
    src_before = sorted(os.listdir(src))
    with open(path, 'rb') as fp:
        dig = vlib.digest(fp.read())
    ds = None
    if st.get('dataset'):
        with vlib.limited():
            ds = dataset(p, path, geom, base)
    mon = Probe.make(st.get('cancel'))
    o = {'err': '', 'status': 0, 'ds': ds or {'err': 'not read'}}
    try:
        with redirect_stdout(io.StringIO()), vlib.limited():
            s = p.process(path, mon) if not st.get('nomon') else p.process(path)
        o['status'] = 0 if s is None else int(s)
    except Exception as e:
        o['err'] = 'insufficient' if 'insufficient' in str(e) else ('%s: %s' % (type(e).__name__, e))[:200]
    with open(path, 'rb') as fp:
        o['input_kept'] = vlib.digest(fp.read()) == dig and sorted(os.listdir(src)) == src_before
    o['made'] = sorted(f for f in os.listdir(od) if before.get(f) != os.stat(os.path.join(od, f)).st_mtime_ns)
    o['total'] = int(mon.total) if mon.total is not None else -1
    o['work'] = int(round(mon.worked * 1000))
    o['peak'] = int(round(mon.peak * 1000))
    o['started'], o['dones'], o['neg'] = mon.started, mon.dones, mon.neg
    o['recs'], o['n1'], o['n2'], o['ft'], o['lt'], o['digests'] = [], -1, -1, 0, 0, []
    o['glob'] = {}
    if not o['err']:
        try:
            f1 = [f for f in o['made'] if f.startswith('L1B_')]
            f2 = [f for f in o['made'] if f.startswith('L1BS_')]
            l1b = nc.Dataset(os.path.join(od, f1[0]))
            l1bs = nc.Dataset(os.path.join(od, f2[0])) if f2 else None
            o['n1'] = len(l1b.dimensions['time_l1b_echo_sar_ku'])
            o['n2'] = len(l1bs.dimensions['time_l1bs_echo_sar_ku']) if l1bs is not None else -1
            o['recs'] = project(geom, l1b, l1bs, base, fmt, geom.n_looks, 0)
            o['glob'] = {k: str(l1b.getncattr(k)) for k in l1b.ncattrs()}
            if l1bs is not None:
                o['globs'] = {k: str(l1bs.getncattr(k)) for k in l1bs.ncattrs()}
            o['ft'], o['lt'] = ticks(geom, o['glob']['first_meas_time']), ticks(geom, o['glob']['last_meas_time'])
            o['digests'] = digests(l1b, l1bs)
            o['vars'] = len(l1b.variables)
            l1b.close()
            if l1bs is not None:
                l1bs.close()
        except Exception as e:
            o['err'] = ('product unreadable: %s: %s' % (type(e).__name__, e))[:200]
    return o


SKIP = ('records_count', )


def digests(l1b, l1bs):
    """per record: a digest of the complete content (except counters of the file)"""
    n = len(l1b.dimensions['time_l1b_echo_sar_ku'])
    res = []
    for i in range(n):
        parts = []
        for ds in (l1b, l1bs):
            if ds is None:
                continue
            tdim = [d for d in ds.dimensions if d.startswith('time_')][0]
            for k in sorted(ds.variables):
                v = ds.variables[k]
                if v.dimensions and v.dimensions[0] == tdim and not k.startswith(SKIP):
                    v.set_auto_maskandscale(False)
                    parts.append(k.encode() + (v[i].tobytes() if i < v.shape[0] else b'?'))
        res.append(vlib.digest(b'|'.join(parts)))
    return res


def one(job):
    geom = l1agen.Geom(**job.get('geom', {}))
    procs, obs = {}, []
    for st in job['steps']:
        try:
            o = run_step(job, procs, st, geom)
        except Exception as e:
            import traceback
            if st['op'] == 'new':
                return {'obs': obs, 'fatal': 'processor not created: %s: %s' % (type(e).__name__, e)}
            return {'obs': obs, '_crash': traceback.format_exc()[-1500:]}
        if o is not None:
            obs.append(o)
    return {'obs': obs}


def main(job):
    return {'all': [one(j) for j in job['jobs']]}


if __name__ == '__main__':
    vlib.worker_main(main)
