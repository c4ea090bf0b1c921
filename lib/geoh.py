"""Positions: conversions, bursts and products anywhere on an ellipsoid."""
import contextlib
import io
import json
import math
import os

import netCDF4 as nc
import numpy as np

import l1agen
import vlib


def big(n):
    n = int(n)
    d, m = [], abs(n)
    while m:
        d.append(m % 1000)
        m //= 1000
    return dict(s=-1 if n < 0 else 1, d=d)


def mm(x):
    if not math.isfinite(x):
        raise ValueError('not a number')
    return big(round(float(x) * 1000))


def angle(rad):
    return dict(c=big(round(math.cos(rad) * 1e12)), s=big(round(math.sin(rad) * 1e12)))


def place(what, lat, lon, h, p):
    return dict(what=what, lat=angle(float(lat)), lon=angle(float(lon)), h=mm(h), p=dict(x=mm(p[0]), y=mm(p[1]), z=mm(p[2])))


def cartesian(a, b, lat, lon, h):
    """where that is; the specification decides whether it is there"""
    n = a * a / math.sqrt((a * math.cos(lat)) ** 2 + (b * math.sin(lat)) ** 2)
    return ((n + h) * math.cos(lat) * math.cos(lon), (n + h) * math.cos(lat) * math.sin(lon), (n * b * b / (a * a) + h) * math.sin(lat))


def geodetic(a, b, p):
    """by iteration"""
    r, z = math.hypot(p[0], p[1]), p[2]
    e2 = 1 - b * b / (a * a)
    lat = math.atan2(z, r * (1 - e2))
    for _ in range(30):
        n = a / math.sqrt(1 - e2 * math.sin(lat) ** 2)
        lat = math.atan2(z + e2 * n * math.sin(lat), r)
    n = a / math.sqrt(1 - e2 * math.sin(lat) ** 2)
    h = r * math.cos(lat) + z * math.sin(lat) - n * (1 - e2 * math.sin(lat) ** 2)
    return lat, math.atan2(p[1], p[0]), h


def attempt(f, *a, **k):
    try:
        with vlib.limited(), contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
            return f(*a, **k), ''
    except vlib.Hang as e:
        return None, 'failed: ' + str(e)
    except Exception as e:
        return None, 'failed: %s: %s' % (type(e).__name__, str(e)[:150])


def constants(a, f):
    from dedop.conf import ConstantsFile
    v = {k: x.get('value') for k, x in l1agen.load_default('CST').items() if k != '__metainf__'}
    v.update(semi_major_axis_cst=a, semi_minor_axis_cst=a * (1 - f), flat_coeff_cst=f)
    return v, ConstantsFile(**v)


def points(rng, n=4):
    from dedop.proc.geo import ecef2lla, lla2ecef
    a = rng.choice([6378137.0, 6378137.0, 6371000.0, rng.uniform(6.2e6, 6.6e6)])
    flat = rng.random() < .15
    f = rng.choice([.1, .3]) if flat else rng.choice([1 / 298.257223563, 1 / 298.257223563, 0.0, 1 / 350, 1 / 250])
    b = a * (1 - f)
    _, cst = constants(a, f)
    o = dict(a=mm(a), b=mm(b), q=[], r=[], said=[], g=[], t=25, u=25, why='')
    for _ in range(n):
        lat = rng.choice([0., 90., -90., 89.9999999, -89.99999, 45., rng.uniform(-90, 90), rng.uniform(-90, 90), rng.uniform(-90, 90), rng.uniform(88, 90), 90 - 10 ** rng.uniform(-6, -1), 10 ** rng.uniform(-6, -1) - 90])
        lon = rng.choice([0., 90., 180., -180., -90., 359.9999, rng.uniform(-180, 180), rng.uniform(-180, 180), rng.uniform(0, 360)])
        h = 0. if flat else rng.choice([0., rng.uniform(-400, 9000), rng.uniform(7e5, 1.4e6), rng.uniform(7e5, 1.4e6), -400.])
        la, lo = math.radians(lat), math.radians(lon)
        deg = rng.random() < .3
        p, why = attempt(lla2ecef, (lat, lon, h) if deg else (la, lo, h), cst, lla_as_degrees=True) if deg else attempt(lla2ecef, (la, lo, h), cst)
        if not why:
            q, why = attempt(place, 'cartesian coordinates of %.6f, %.6f, %.1f' % (lat, lon, h), la, lo, h, p)
        if why:
            o['why'] = 'lla2ecef of %r: %s' % ((lat, lon, h), why)
            return o
        o['q'].append(q)
        p = cartesian(a, b, la, lo, h)
        r, why = attempt(ecef2lla, p, cst)
        if not why:
            q, why = attempt(place, 'geodetic coordinates of %.3f, %.3f, %.3f' % p, r[0], r[1], r[2], p)
        if not why and not (-math.pi / 2 - 1e-12 <= r[0] <= math.pi / 2 + 1e-12 and 0 <= r[1] <= 2 * math.pi + 1e-12):
            why = 'not in range: %r' % (r[:2],)
        if why:
            o['why'] = 'ecef2lla of %r: %s' % (p, why)
            return o
        o['q'].append(q)
    return o


def passage(rng, d):
    """a pass over some place: what the bursts and the records of the products say"""
    from dedop.data.input.l1a import L1ADataset
    from dedop.proc.sar import L1BProcessor
    g = l1agen.Geom()
    a, f = 6378137.0, rng.choice([1 / 298.257223563, 1 / 298.257223563, 1 / 290, 0.0])
    b = a * (1 - f)
    v, cst = constants(a, f)
    o = dict(a=mm(a), b=mm(b), q=[], r=[], said=[], g=[], t=700, u=150, why='')
    inc = math.radians(rng.choice([92., 98.6, 66., 33., 147., 90., 51.]))
    om = math.radians(rng.choice([rng.uniform(-180, 180), 0., 90., 179.9, -179.9]))
    th0 = math.radians(rng.uniform(-180, 180))
    R = a + rng.uniform(7.2e5, 8.5e5)
    speed, climb = rng.uniform(7200, 7600), rng.choice([0., 25., -25., rng.uniform(-40, 40)])

    def at(th):
        x, y, z = math.cos(th), math.sin(th) * math.cos(inc), math.sin(th) * math.sin(inc)
        return np.array([x * math.cos(om) - y * math.sin(om), x * math.sin(om) + y * math.cos(om), z])
    step = rng.choice([900., 1100., 1300.]) / a
    kind = rng.choice(['', '', 'date line', 'meridian', 'pole', 'south pole'])
    if kind in ('date line', 'meridian'):     # crossed on the way
        om, th0 = math.pi if kind == 'date line' else 0., -rng.uniform(5, 40) * step
        inc = math.radians(rng.choice([98.6, 66., 33., 147., 51., 10.]))
    elif kind:
        inc, th0 = math.pi / 2 + rng.choice([0., 1e-7, 1e-5, 1e-3]), (math.pi / 2 if kind == 'pole' else -math.pi / 2) - rng.choice([20, rng.uniform(5, 40)]) * step
    bs, pos, surf = [], [], rng.uniform(-100, 3000)
    n, gap = rng.randint(48, 64), rng.randint(2, 4)     # the end comes after a gap: every surface is worked off
    for i in range(n + gap):
        th = th0 + i * step
        p = R * at(th)
        la, lo, h = geodetic(a, b, p)
        vel = speed * at(th + math.pi / 2) + climb * at(th)
        bs.append(dict(pos=0, t=i * 1000 + (5000 if i >= n else 0), id=i + 1, lla=(math.degrees(la), math.degrees(lo), h), vel=vel, range=h - surf, agc=1.0,
                       day=5787, sec=1000. + i * .05))
        pos.append(p)
    path = os.path.join(d, 'L1A_x.nc')
    l1agen.write_l1a(path, g, bs)
    _, why = attempt(service, rng, o, path, bs)
    if why:
        o['why'] = 'web service: ' + why
        return o
    f = g.write_conf(d, cst=v, cnf={'flag_stack_masking_cnf': False, 'flag_cal1_corrections_cnf': False, 'flag_cal2_correction_cnf': False, 'N_looks_stack_cnf': 8})
    from dedop.conf import CharacterisationFile, ConfigurationFile

    def read():
        ds = L1ADataset(path, cst=cst, chd=CharacterisationFile(cst, f['CHD']), cnf=ConfigurationFile(f['CNF']))
        k = rng.randrange(len(bs))
        n = 0
        for x in ds:
            if n == k:
                la, lo, h = bs[k]['lla']
                la, lo = math.radians(la), math.radians(lo)
                o['q'].append(place('satellite of burst %d' % k, la, lo, h, (x.x_sar_sat, x.y_sar_sat, x.z_sar_sat)))
                o['q'].append(place('surface under burst %d' % k, la, lo, surf, (x.x_sar_surf, x.y_sar_surf, x.z_sar_surf)))
            n += 1
        ds.close() if hasattr(ds, 'close') else None
    _, why = attempt(read)
    if why:
        o['why'] = 'reading: ' + why
        return o
    out = os.path.join(d, 'out')
    os.makedirs(out)

    import dedop.data.output as output
    t = [5e8 + x['t'] * g.bri / 1000 for x in bs]
    ground, write = [], {x: vars(x)['write_record'] for x in (output.L1BWriter, output.L1BWriterExtended) if 'write_record' in vars(x)}

    def keep(f):
        def g(self, *x, **k):
            s = (x[:1] or list(k.values())[:1])[0]
            if not any(s is y[0] for y in ground):
                ground.append((s, looks(rng, s, t, bs, pos)))
            return f(self, *x, **k)
        return g

    def run():
        for x, y in write.items():
            x.write_record = keep(y)
        try:
            L1BProcessor('x', f['CNF'], f['CST'], f['CHD'], out, skip_l1bs=False).process(path)
        finally:
            for x, y in write.items():
                x.write_record = y
    _, why = attempt(run)
    if why:
        o['why'] = 'processing: ' + why
        return o
    for i in sorted(rng.sample(range(len(ground)), min(3, len(ground)))):
        s, o['g'] = ground[i][0], o['g'] + ground[i][1]

        def see():
            p = (s.x_surf, s.y_surf, s.z_surf)
            return [place('surface %d' % i, s.lat_surf, s.lon_surf, s.alt_surf, p), place('ground under the satellite at surface %d' % i, s.lat_sat, s.lon_sat, surf, p)]
        q, why = attempt(see)
        if why:
            o['why'] = 'surface %d: %s' % (i, why)
            return o
        o['q'] += q
    def spacing():
        res = math.asin(g.cst['c_cst'] * g.chd['prf_sar_chd'] / (2 * g.chd['freq_ku_chd'] * g.pulses * float(np.hypot(speed, climb))))
        for i in rng.sample(range(len(ground) - 1), max(0, min(3, len(ground) - 1))):
            s, n = ground[i][0], ground[i + 1][0]
            if n.time_surf < t[-1] - 5 * g.bri:     # not after the gap
                o['g'].append(dict(what='surface %d' % (i + 1), kind='next', v=vec(seen(s, s)), d=vec(seen(s, n)), a=angle(res)['c'], tol=10000))
    _, why = attempt(spacing) if ground else (0, 'no records')
    if why:
        o['why'] = 'surfaces: ' + why
        return o
    _, why = attempt(products, rng, o, out, t, pos)
    o['why'] = why and 'products: ' + why
    return o


def vec(p):
    return dict(x=mm(p[0]), y=mm(p[1]), z=mm(p[2]))


def seen(s, n):
    return (n.x_surf - s.x_sat, n.y_surf - s.y_sat, n.z_surf - s.z_sat)


def looks(rng, s, t, bs, pos):
    """how the bursts of a stack see their surface"""
    o = []
    for j in rng.sample(range(s.data_stack_size), min(2, s.data_stack_size)):
        b = s.stack_bursts[j]
        k = min(range(len(t)), key=lambda i: abs(t[i] - b.time_sar_ku))
        d = vec((s.x_surf - pos[k][0], s.y_surf - pos[k][1], s.z_surf - pos[k][2]))
        v, (la, lo, _) = vec(1000 * np.asarray(bs[k]['vel'])), bs[k]['lla']
        what = ' of look %d of the surface at %.4f s from burst %d' % (j, s.time_surf - t[0], k)
        o.append(dict(what='beam angle' + what, kind='angle', v=v, d=d, a=angle(float(s.beam_angles_surf[j]))['c'], tol=10000))
        o.append(dict(what='look angle' + what, kind='look', v=v, d=d, a=angle(float(s.look_angles_surf[j]))['s'], tol=1000000, lat=angle(math.radians(la)), lon=angle(math.radians(lo))))
        o.append(dict(what='doppler angle' + what, kind='climb', v=v, a=angle(float(s.doppler_angles_surf[j]))['s'], tol=100000, lat=angle(math.radians(la)), lon=angle(math.radians(lo))))
        o.append(dict(what='range' + what, kind='range', d=d, a=mm(float(s.range_sat_surf[j])), tol=50))
    return o


def service(rng, o, path, bs):
    """what the web service tells of the file"""
    import shellh  # noqa: stand-ins for what is not installed
    from dedop.webapi.websocket import WebSocketService as W
    extra = dict(comment_x=rng.choice(['', 'a b', '\u00e9']), scale_x=rng.choice([.5, np.float32(.25)]), count_x=np.int32(rng.randint(-9, 9)), list_x=np.array([1, 2, rng.randint(3, 9)]))
    with nc.Dataset(path, 'a') as ds:
        for k in rng.sample(sorted(extra), 2):
            ds.setncattr(k, extra[k])
        given = {k: ds.getncattr(k) for k in ds.ncattrs()}
    micro = lambda l: [int(round(max(-2e3, min(2e3, x)) * 1e6)) for x in l]
    lat, lon = ([x['lla'][k] for x in bs] for k in (0, 1))
    for what, a in (('track', W.get_lat_lon(path)), ('ends', W.get_max_min_coordinates(path))):
        a = json.loads(json.dumps(a))
        o['said'] += [dict(what='latitudes of the ' + what, is_=micro(lat), is_end=what == 'ends', said=micro(a['lat'])),
                      dict(what='longitudes of the ' + what, is_=micro(lon), is_end=what == 'ends', said=micro(a['lon']))]
    a = json.loads(json.dumps(W.get_global_attributes(path)))
    text = lambda v: v if isinstance(v, str) else repr([float(x) for x in np.ravel(v)])
    o['said'].append(dict(what='attributes', is_=sorted(k + '=' + text(v) for k, v in given.items()), is_end=False, said=sorted(k + '=' + text(v) for k, v in a.items())))


def products(rng, o, out, t, pos):
    for kind in ('l1b', 'l1bs'):
        with nc.Dataset([os.path.join(out, x) for x in os.listdir(out) if x.startswith(kind.upper() + '_')][0]) as ds:
            w = {k: np.ma.filled(ds['%s_%s_echo_sar_ku' % (k, kind)][:].astype(float), np.nan) for k in ('time', 'lat', 'lon', 'alt', 'x_pos', 'y_pos', 'z_pos')}
        o['n'] = len(w['time'])
        for i in sorted(rng.sample(range(o['n']), min(4, o['n']))):
            p = (w['x_pos'][i], w['y_pos'][i], w['z_pos'][i])
            o['q'].append(place('%s record %d' % (kind, i), math.radians(w['lat'][i]), math.radians(w['lon'][i]), w['alt'][i], p))
            k = max([j for j in range(len(t) - 1) if t[j] <= w['time'][i] + 1e-7], default=0)
            o['r'].append(dict(n=i, at=[int(round(max(-1e6, min(1e6, (x - y) * 100)))) for x, y in zip(p, pos[k])],
                               to=[int(round((x - y) * 100)) for x, y in zip(pos[k + 1], pos[k])],
                               f=int(round(max(-2e3, min(2e3, (w['time'][i] - t[k]) / (t[k + 1] - t[k]) * 1000)))), tol=90000))
