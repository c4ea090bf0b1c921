"""Inputs for the chain (lib/chainrun.py) together with what spec/Chain.tla has to know about them."""
import math
import os

import chainrun
import l1agen
import vlib

P0 = dict(spacing=1000, half=4000, gap=1500, min=80)
DAY = 216000000        # one day in hundredths of a burst interval (40 ms)
AMPS = list(range(8, 128, 4))


def track(rng, segs, style='mixed', p_bad=0.0, pos0=0, t0=0, jump=None, ids0=1, p_back=0.0):
    """bursts of a file; segs: list of (number of records, minimal extent in units or None)"""
    bursts, pos, t, ident = [], pos0, t0, ids0
    for gi, (n, extent) in enumerate(segs):
        st = rng.choice(['nominal', 'dense', 'wide', 'slow']) if style == 'mixed' else style
        first = None
        k = 0
        bad_left = 0
        while k < n or (extent is not None and bursts and pos - first < extent):
            if k == 0:
                if gi:
                    t += rng.choice([1510, 1510, 1520, 1600, 2000, 5000, 40000])
                    if rng.random() < p_back:
                        pos -= 10 * rng.randint(50, 900)
                    else:
                        pos += rng.choice([0, 3, 470, 1000, 3000, 9000, 31234])
                first = pos
            else:
                if st == 'nominal':
                    dt, dp = 1000, 10 * rng.choice([90, 93, 95, 98, 99])
                elif st == 'dense':
                    dt, dp = 10 * rng.randint(30, 72), 10 * rng.randint(25, 49)
                elif st == 'wide':
                    dt, dp = 10 * rng.randint(60, 148), 10 * rng.randint(60, 99)
                else:
                    dt, dp = rng.choice([740, 745, 1480, 1490]) // 10 * 10, 10 * rng.choice([30, 48, 49])
                t += dt
                pos += dp
            b = dict(pos=pos, t=t, id=ident, valid=True)
            if p_bad and rng.random() < p_bad and st != 'wide' and k > 0 and bad_left == 0:
                b['valid'] = False
                bad_left = 2
            else:
                bad_left = max(0, bad_left - 1)
            bursts.append(b)
            ident += rng.choice([1, 1, 1, 2, 3]) if gi % 2 else 1
            k += 1
    return bursts


def dress(rng, bursts, utc='random', fields=True):
    """amplitudes, gains, calibration, UTC and the fields that are handed through"""
    d, s = 5787, rng.randint(1000, DAY - 5000000)
    if utc == 'midnight':
        mid = rng.choice(bursts)['t']
        leap = 100 * rng.choice([0, 0, 25, -25])      # leap second: +-1 s = 25 intervals
        s = DAY + leap - mid // 10 + 10 * rng.randint(-9, 9)
    else:
        leap = 0
    for b in bursts:
        el = s + b['t'] // 10
        if el >= DAY + leap:
            b['d'], b['s'] = d + 1, el - DAY - leap
        else:
            b['d'], b['s'] = d, el
        b['a'] = rng.choice(AMPS)
        b['g'] = rng.choice([1, 1, 10])
        b['c1'] = rng.choice([1, 1, 2, 3])
        b['s0'] = rng.choice([0, 0, 1])
        b['ph'] = rng.randint(0, 3)
        b['c2'] = [rng.choice([1, 2, 3]) for _ in range(3)]
        if fields:
            for k in ('oper_instr', 'SAR_mode', 'cl_gain', 'acq_stat', 'dem_eeprom', 'loss_track', 'surf_type',
                      'flag_time_status', 'nav_bul_status', 'nav_bul_source'):
                b[k] = rng.randint(0, 3)
            for k in ('h0_nav_dem', 'h0_applied', 'isp_coarse_time', 'isp_fine_time', 'sral_fine_time'):
                b[k] = rng.randint(0, 1000000)
            for k in ('cor2_nav_dem', 'cor2_applied', 'dh0'):
                b[k] = rng.randint(-9000, 9000)
            b['agccode_ku'] = rng.randint(0, 60)
            b['rate'] = rng.randint(-200, 200)
            for k in ('roll', 'pitch', 'yaw'):
                b[k] = rng.randint(-50, 50)
            for k in ('int_path_cor_ku', 'uso_cor', 'cog_cor'):
                b[k] = rng.randint(-900, 900)
            b['cog_cor'] = rng.randint(-9, 9)
    return bursts


def roi_flags(geom, bursts, base, roi):
    out = []
    for b in bursts:
        ang = math.degrees(math.radians(base) + b['pos'] * geom.unit_rad) if b.get('valid', True) else 0.0
        lat, lon = (0.0, ang) if geom.axis == 'lon' else (ang, 0.0)
        ok = True
        for key, v in (roi or {}).items():
            x = lat if 'lat' in key else lon
            ok = ok and (x >= v if key.startswith('min') else x <= v)
        out.append(ok)
    return out


def pick_roi(rng, geom, bursts, base, kind):
    """bounds half way between two burst positions"""
    ps = sorted({b['pos'] for b in bursts if b.get('valid', True)})
    ax = geom.axis

    def deg(i):
        lo, hi = (ps[i - 1] if i > 0 else ps[0] - 20), (ps[i] if i < len(ps) else ps[-1] + 20)
        return math.degrees(math.radians(base) + (lo + hi) / 2.0 * geom.unit_rad)
    i = rng.randint(0, max(0, len(ps) // 4))
    j = rng.randint(max(i + 1, len(ps) * 3 // 4), len(ps))
    if kind == 'tight':
        i, j = sorted(rng.sample(range(len(ps) + 1), 2))
    roi = {}
    if kind in ('both', 'min', 'tight'):
        roi['min_%s_cnf' % ax] = deg(i)
    if kind in ('both', 'max', 'tight'):
        roi['max_%s_cnf' % ax] = deg(j)
    if rng.random() < .5:
        o = 'lat' if ax == 'lon' else 'lon'
        roi['min_%s_cnf' % o] = rng.choice([-1.0, -90.0 if o == 'lat' else -180.0])
        if rng.random() < .5:
            roi['max_%s_cnf' % o] = rng.choice([1.0, 45.0])
    return roi


def settle(bursts, flags, gap=1500):
    """within a segment all bursts lie 10 k + 3 units behind the first: no ties, nothing close to a threshold"""
    first = prev = None
    for b, f in zip(bursts, flags):
        if not (f and b.get('valid', True)):
            continue
        if prev is None or b['t'] - prev >= gap:
            first = b['pos']
        else:
            b['pos'] += 3 - (b['pos'] - first) % 10
        prev = b['t']


def aim(rng, bursts, gap=1500):
    """let each burst illuminate one of the surfaces it sees (call after settle)"""
    seg = []

    def flush():
        if not seg:
            return
        first, last = seg[0]['pos'], max(b['pos'] for b in seg)
        for b in seg:
            ks = [k for k in range((last - first) // 1000 + 1) if abs(first + 1000 * k - b['pos']) <= 3900]
            b['aim'] = first + 1000 * rng.choice(ks)
    for b in bursts:
        if not b.get('valid', True):
            b['aim'] = b['pos']
            continue
        if seg and b['t'] - seg[-1]['t'] >= gap:
            flush()
            seg = []
        seg.append(b)
    flush()


class Plan:
    """a job for chainrun and the cases to judge, one for each run"""

    def __init__(self, ctx, geom=None):
        self.ctx = ctx
        self.gargs = dict(geom or {})
        self.geom = l1agen.Geom(**self.gargs)
        self.steps, self.cases, self.new = [], [], {}

    def processor(self, key, name='x', skip=False, cnf=None, out=None, roi=None, chd=None, angle=None, weights=None):
        c = {'flag_stack_masking_cnf': False, 'flag_cal1_corrections_cnf': False, 'flag_cal2_correction_cnf': False,
             'flag_cal2_table_index_cnf': 0, 'N_looks_stack_cnf': 8}
        c.update(cnf or {})
        c.update(roi or {})
        chd = dict(chd or {})
        look1 = self.geom.look(1000 * self.geom.unit_rad) / 1000
        if angle:
            for k, u in zip(('min', 'max'), angle):
                chd['look_angle_mask_%s_chd' % k] = math.degrees(math.copysign(self.geom.look(abs(u) * self.geom.unit_rad), u))
        if weights:
            chd['antenna_weights_chd'] = [x / 1000.0 for x in weights['w']]
            chd['antenna_angles_chd'] = [(weights['u0'] + i * weights['du']) * look1 for i in range(len(weights['w']))]
            chd['antenna_angles_spacing_chd'] = weights['du'] * look1
        st = {'op': 'new', 'key': key, 'name': name, 'skip': skip, 'cnf': c, 'out': out, 'chd': chd, '_angle': angle,
              '_weights': weights}
        self.new[key] = (st, roi)
        self.steps.append(st)

    def run(self, key, bursts, file='L1A_a.nc', cancel=None, base=10.0, noise=False, want=(), globals_=None, nomon=False, dataset=False, target=None):
        st, roi = self.new[key]
        flags = roi_flags(self.geom, bursts, base, roi)
        settle(bursts, flags)
        if flags != roi_flags(self.geom, bursts, base, roi):
            raise vlib.MachineryError('region of interest too close to a burst')
        self.steps.append({'op': 'run', 'key': key, 'file': file, 'bursts': bursts, 'cancel': cancel, 'base': base,
                           'noise': noise, 'globals': globals_, 'nomon': nomon, 'dataset': dataset})
        c = st['cnf']
        rs = []
        for b, f in zip(bursts, flags):
            rs.append(dict(pos=b['pos'], t=b['t'], use=bool(f and b.get('valid', True)), roi=bool(f), a=b.get('a', 64),
                           g=b.get('g', 1), c1=b.get('c1', 1), c2=b.get('c2', [1, 1, 1]),
                           aim=b.get('aim', 0), pl=b.get('pl', 0), ph=b.get('ph', 0), id=b['id'], d=b.get('d', chainrun.DAY0), s=b.get('s', 0),
                           w=b.get('w', 0), cog=b.get('cog_cor', 0), tone=b.get('tone', 0), v=[b.get('rate', 0), b.get('rate', 0)] + [b.get(k, 0) for k in ('roll', 'pitch', 'yaw')],
                           f=chainrun.expect_fields(b)))
        glob = dict(l1agen.GLOBALS)
        glob.update(globals_ or {})
        glob.pop('xref_platform')
        pn = glob.pop('product_name')
        ang = st['_angle']
        opts = dict(dop=c.get('flag_doppler_range_correction_cnf', True), slant=c.get('flag_slant_range_correction_cnf', True),
                    mask=c['flag_stack_masking_cnf'], angle=bool(ang), amin=ang[0] if ang else 0, amax=ang[1] if ang else 0,
                    avoid=c.get('flag_avoid_zeros_in_multilooking_cnf', True), aw=bool(c.get('flag_antenna_weighting_cnf', False)))
        case = dict(ext=c.get('output_format_flag_cnf', 'extended') == 'extended', K=self.geom.consts(), O=opts, S=self.geom.radar(st['chd']), W=st['_weights'] or dict(u0=0, du=1, w=[1000]), T=dict(shape=c.get('flag_azimuth_windowing_method_cnf', 'none'), width=c.get('azimuth_window_width_cnf', self.geom.pulses)), P=dict(P0, looks=c['N_looks_stack_cnf'], pulses=self.geom.pulses), rs=rs, cal1=c['flag_cal1_corrections_cnf'],
                    cal2=c['flag_cal2_correction_cnf'], idx=c['flag_cal2_table_index_cnf'], skip=st['skip'],
                    cancel=-1 if cancel is None else cancel, focus=target is not None, target=target or 0, noise=noise, steer=any('aim' in b for b in bursts), day=DAY, file=file, name=st['name'],
                    glob=glob, globs=dict(glob, xref_platform=(dict(l1agen.GLOBALS, **(globals_ or {})))['xref_platform']),
                    pname=pn, want=list(want), nomon=nomon, _cnf=c, _base=base, _roi=roi)
        self.cases.append(case)
        return case

    def job(self):
        return {'dir': self.ctx.scratch('run'), 'geom': self.gargs, 'steps': self.steps}


def batched(script, jobs, timeout=800, procs=8):
    """several jobs in one process (importing is slow); a batch whose process died is repeated job by job"""
    n = min(procs, len(jobs))
    batches = [list(range(i, len(jobs), n)) for i in range(n)]
    out = vlib.parallel(script, [{'jobs': [jobs[i] for i in b]} for b in batches], procs=procs, timeout=timeout)
    res = [None] * len(jobs)
    again = []
    for b, r in zip(batches, out):
        if 'all' in r:
            for i, x in zip(b, r['all']):
                res[i] = x
        else:
            again += b
    if again:
        out = vlib.parallel(script, [{'jobs': [jobs[i]]} for i in again], procs=procs, timeout=120)
        for i, r in zip(again, out):
            res[i] = r['all'][0] if 'all' in r else r
    return res


def execute(ctx, plans, timeout=800):
    """runs all plans against the real chain; returns the cases with their observations"""
    res = batched('chainrun.py', [p.job() for p in plans], timeout)
    cases = []
    for p, r in zip(plans, res):
        obs = r.get('obs', [])
        if '_crash' in r and not (r['_crash'].startswith('rc ') or r['_crash'] == 'timeout'):
            raise vlib.MachineryError('chain harness: ' + r['_crash'])
        for i, c in enumerate(p.cases):
            if i < len(obs):
                c['obs'] = obs[i]
            else:
                why = r.get('fatal') or ('the process ended: ' + r.get('_crash', '?')[:300] if '_crash' in r else 'no result')
                c['obs'] = dict(err=why, status=0, made=[], total=-1, work=0, peak=0, started=0, dones=0, neg=False,
                                recs=[], n1=-1, n2=-1, glob={}, globs={}, digests=[], input_kept=True, ft=0, lt=0,
                                ds=dict(err=why, len=-1, max=-1, nx=[], it=[], ft=0, lt=0, mem=[], pos=[]))
            c['obs'].setdefault('globs', {})
            cases.append(c)
    return cases
