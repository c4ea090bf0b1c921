"""Lets the real inspector and comparator draw generated products with a pyplot that records what it is given."""
import contextlib
import io
import math
import os
import sys
import types

import numpy as np

import vlib

MISSING, NOLIMIT = 999999, 888888
REC = None


def cell(x):
    if np.ma.is_masked(x) or not math.isfinite(float(x)) or abs(float(x)) > 900000:
        return MISSING
    return int(round(float(x)))


def rows(a, shape=None):
    a = np.ma.asarray(a)
    if a.ndim == 1 and shape is not None and a.size == shape[0] * shape[1]:
        a = a.reshape(shape)
    if a.ndim == 1:
        return [[cell(x) for x in a]]
    return [[cell(x) for x in r] for r in a]


def lim(x):
    return NOLIMIT if x is None else cell(x)


class Any:
    """takes any call"""
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: Any()

    def __iter__(self):
        return iter(())


class Axes(Any):
    def __init__(self, rec):
        self.__dict__.update(rec=rec, items=[])

    def imshow(self, X, *a, **k):
        m = X
        self.items.append(dict(k='image', x=[], m=rows(m), lo=lim(k.get('vmin')), hi=lim(k.get('vmax'))))
        return Any()

    def plot(self, x, y=None, *a, **k):
        if y is None or isinstance(y, str):
            x, y = np.arange(len(x)), x
        self.items.append(dict(k='line', x=rows(x)[0], m=rows(y)[:1], lo=0, hi=0))
        return [Any()]

    def hist(self, x, *a, **k):
        m = x
        r = k.get('range') or (None, None)
        self.items.append(dict(k='hist', x=[], m=rows(m, self.rec.shape), lo=lim(r[0]), hi=lim(r[1])))
        return Any()

    def scatter(self, x, y, *a, **k):
        for n, m in (('pairs', x), ('against', y)):
            self.items.append(dict(k=n, x=[], m=rows(m, self.rec.shape), lo=NOLIMIT, hi=NOLIMIT))
        return Any()

    hexbin = scatter

    def axis(self, v=None, *a, **k):
        for i in self.items:
            i['_lim'] = [lim(x) for x in v] if isinstance(v, (list, tuple)) and len(v) == 4 else None
        self.__dict__['lims'] = v
        return v

    def xlim(self, *v, **k):
        return self._limit(0, *v)

    def ylim(self, *v, **k):
        return self._limit(2, *v)

    def _limit(self, at, *v):
        v = v[0] if len(v) == 1 else v
        w = list(self.__dict__.get('lims') or [None] * 4)
        w[at:at + 2] = v
        self.__dict__['lims'] = w

    set_xlim, set_ylim = xlim, ylim

    def plot_surface(self, x, y, z, *a, **k):
        self.items.append(dict(k='surface', x=[], m=rows(z), lo=0, hi=0))
        return Any()

    def axvline(self, x=0, *a, **k):
        self.items.append(dict(k='column', x=[int(x)], m=[], lo=0, hi=0))

    def axhline(self, y=0, *a, **k):
        self.items.append(dict(k='row', x=[int(y)], m=[], lo=0, hi=0))

    def remove(self):
        self.items.clear()

    def __bool__(self):
        return True


class Fig(Any):
    def __init__(self, rec):
        self.__dict__.update(rec=rec, all=[])

    def add(self):
        self.all.append(Axes(self.rec))
        return self.all[-1]

    def gca(self, *a, **k):
        return self.all[-1] if self.all else self.add()

    def add_subplot(self, *a, **k):
        return self.add()

    def subplots(self, nrows=1, ncols=1, *a, **k):
        self.rec.cur = self
        return self.rec._tiles(self, nrows, ncols)[1]

    add_axes = add_subplot

    def savefig(self, *a, **k):
        self.rec.savefig(*a, **k)

    def content(self):
        out = []
        for ax in self.all:
            v = ax.__dict__.get('lims')
            for i in ax.items:
                i = dict(i)
                i.pop('_lim', None)
                if i['k'] in ('pairs', 'against'):
                    v4 = [lim(x) for x in v] if isinstance(v, (list, tuple)) and len(v) == 4 else [NOLIMIT] * 4
                    i['lo'], i['hi'] = v4[0], v4[1]
                    if v4[:2] != v4[2:]:
                        i['hi'] = NOLIMIT
                out.append(i)
        return out


class Recorder:
    def __init__(self):
        self.shape = None
        self.reset()

    def reset(self):
        self.cur, self.saved, self.shown, self.offer, self.chosen = None, [], [], [], ''

    def figure(self, *a, **k):
        self.cur = Fig(self)
        return self.cur

    def gcf(self):
        return self.cur or self.figure()

    def gca(self, *a, **k):
        return self.gcf().gca()

    def subplot(self, *a, **k):
        return self.gcf().add()

    def subplots(self, nrows=1, ncols=1, *a, **k):
        return self._tiles(self.figure(), nrows, ncols)

    def _tiles(self, f, nrows, ncols):
        ax = np.empty((nrows, ncols), object)
        for i in range(nrows):
            for j in range(ncols):
                ax[i, j] = f.add()
        if nrows == ncols == 1:
            return f, ax[0, 0]
        return f, ax[0] if nrows == 1 else ax[:, 0] if ncols == 1 else ax

    def savefig(self, to, *a, **k):
        items = self.gcf().content()
        if isinstance(to, Pages):
            to.pages += 1
            self.saved.append(dict(name='page', items=items))
        else:
            open(to, 'w').close()
            self.saved.append(dict(name=os.path.basename(to), dir=os.path.dirname(to), items=items))

    def show(self, *a, **k):
        self.shown.append(dict(name='', items=self.gcf().content()))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if hasattr(Axes, n) and not n.startswith('_'):
            return getattr(self.gcf().gca(), n)
        return lambda *a, **k: Any()


class Pages:
    made = []

    def __init__(self, path, *a, **k):
        self.path, self.pages, self.open = path, 0, True
        open(path, 'w').close()
        Pages.made.append(self)

    def close(self):
        self.open = False

    def savefig(self, figure=None, **k):
        REC.savefig(self)


def points(source):
    d = source.kw.get('data') or {}
    return dict(k='points', x=rows(d.get('x', []))[0], m=rows(d.get('y', []))[:1], lo=0, hi=0)


class Thing(Any):
    def __init__(self, *a, **kw):
        self.__dict__.update(a=a, kw=kw, glyphs=[])

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Thing()

    def __setattr__(self, n, v):
        self.__dict__[n] = v

    def __call__(self, *a, **k):
        return Thing()

    def add_glyph(self, source, *a, **k):
        self.glyphs.append(source)


def bsave(fig, path=None, *a, **k):
    path = path or k.get('filename')
    open(path, 'w').close()
    REC.saved.append(dict(name=os.path.basename(path), dir=os.path.dirname(path), items=[points(s) for s in fig.glyphs]))


def bshow(fig, *a, **k):
    REC.shown.append(dict(name='', items=[points(s) for s in fig.glyphs]))


def interact(f, **kw):
    """shows the function for the first choice"""
    val = {}
    for k, v in kw.items():
        choice = v if isinstance(v, (list, tuple)) else getattr(v, 'options', None) or ()
        if any(isinstance(x, str) for x in choice):
            REC.offer = [str(x) for x in choice]
            REC.chosen = v[0] if choice is v else v.value
        if isinstance(v, (list, tuple)):
            v = v[0]
        elif hasattr(v, 'value'):
            v = v.value
        val[k] = v
    f(**val)


def install():
    """the drawing libraries: those here are not the versions the package is made for"""
    global REC
    import ipywidgets
    import matplotlib
    import matplotlib.backends.backend_pdf as bp
    import matplotlib.collections
    import mpl_toolkits.mplot3d  # noqa
    REC = Recorder()
    fake = types.ModuleType('matplotlib.pyplot')
    fake.__getattr__ = lambda n: getattr(REC, n)
    sys.modules['matplotlib.pyplot'] = fake
    matplotlib.pyplot = fake
    bp.PdfPages = Pages
    ipywidgets.interact = interact
    b = {n: types.ModuleType(n) for n in ('bokeh', 'bokeh.io', 'bokeh.model', 'bokeh.models', 'bokeh.plotting', 'bokeh.util', 'bokeh.util.platform', 'bokeh.tile_providers')}
    for n, m in b.items():
        m.__path__ = []
        m.__getattr__ = lambda x: (_ for _ in ()).throw(AttributeError(x)) if x.startswith('__') else Thing
        if '.' in n:
            setattr(b[n.rpartition('.')[0]], n.rpartition('.')[2], m)
    b['bokeh.io'].output_notebook = lambda *a, **k: None
    b['bokeh.io'].save, b['bokeh.io'].show = bsave, bshow
    sys.modules.update(b)
    import netCDF4
    real = netCDF4.num2date         # the library here makes masked arrays of dates that have no least one

    def num2date(times, *a, **k):
        return real(np.asarray(times), *a, **k)
    netCDF4.num2date = num2date
    pp = types.ModuleType('pyproj')
    pp.Proj = Thing
    pp.transform = lambda a, b, x, y: (x, y)
    sys.modules['pyproj'] = pp


def product(rng, path, shape=None, l1bs=False):
    import netCDF4
    t = 'l1bs' if l1bs else 'l1b'
    n, s = shape or (rng.randint(1, 5), rng.randint(1, 6))
    sfx = '_%s_echo_sar_ku' % t
    with netCDF4.Dataset(path, 'w') as d:
        d.createDimension('time' + sfx, n)
        d.createDimension('echo_sample_ind', s)
        d.createDimension('max_multi_stack_ind', 3)
        v = {}

        def put(name, dims, dtype, vals, **at):
            x = d.createVariable(name, dtype, dims, fill_value=-9999)
            for k, a in at.items():
                setattr(x, k, a)
            x[:] = np.ma.masked_equal(np.array(vals, float), MISSING)
            m = np.array(vals).tolist()
            v[name] = dict(d=len(dims), m=m if len(dims) == 2 else [m])

        def ints(*sh, hole=0.0, lo=-40, hi=40):
            a = np.array([rng.randint(lo, hi) if rng.random() >= hole else MISSING for _ in range(int(np.prod(sh)))]).reshape(sh)
            if (a == MISSING).all():
                a.flat[0] = 3
            return a.tolist()
        T, S, M = 'time' + sfx, 'echo_sample_ind', 'max_multi_stack_ind'
        tm = sorted(rng.randint(0, 900) for _ in range(n))
        put(T, (T,), 'f8', tm, units='seconds since 2000-01-01 00:00:00.0', calendar='gregorian')
        lat, lon = ints(n), ints(n, lo=-170, hi=170)
        put('lat' + sfx, (T,), 'i4', lat, units='degrees_north')
        put('lon' + sfx, (T,), 'i4', lon)
        cnt, sc = ints(n, s, hole=rng.choice([0, 0, .1]), lo=rng.choice([0, -9, 5])), ints(n, lo=-9, hi=9)
        if rng.random() < .12:          # all the same
            cnt, sc = [[rng.choice([0, 3, 7])] * s] * n, [rng.choice([0, 1, 2])] * n
        put('i2q2_meas_ku' + sfx, (T, S), 'f8', cnt)
        put('scale_factor_ku' + sfx, (T,), 'f8', sc)
        put('look_ang' + sfx, (T, M), 'i4', ints(n, 3, hole=.2), units='rad')
        put('alpha', (T, S), 'f8', ints(n, s, lo=rng.choice([-40, 0, 10]), hi=40))
        put('beta', (M, S), 'f4', ints(3, s, lo=-40, hi=rng.choice([0, 40])))
        put('gamma', (S,), 'i4', ints(s))
        put('delta', (S,), 'f8', ints(s))
        put('nb', (T,), 'i4', ints(n))
    wave = [[MISSING if c == MISSING else c * k for c in r] for r, k in zip(cnt, sc)]
    return dict(vars=v, wave=wave, lat=lat, lon=lon), (n, s), sfx


def writer(rng, d):
    """path, format given to the inspector"""
    stem = os.path.join(d, 'out', rng.choice(['figs', 'a b', 'x']))
    ext = rng.choice(['', '', '', 'pdf', 'pdf', 'PDF', 'png'])
    fmt = rng.choice(['', '', 'dir', 'pdf', 'PDF', 'Dir', 'png'])
    return stem, ext, fmt


def attempt(f, *a, **k):
    """result, what came of it"""
    out = io.StringIO()
    try:
        with vlib.limited(), contextlib.redirect_stdout(out):
            return f(*a, **k), '', out.getvalue()
    except ValueError as e:
        return None, 'refused', out.getvalue()
    except vlib.Hang as e:
        return None, 'failed: ' + str(e), out.getvalue()
    except Exception as e:
        return None, 'failed: %s: %s' % (type(e).__name__, str(e)[:150]), out.getvalue()


def call(rng, p, sfx, shape):
    c = dict(op='', z='', x='', y='', lo=NOLIMIT, hi=NOLIMIT, i=-1, j=-1)
    if rng.random() < .6:
        c['lo'] = rng.choice([0, 0, NOLIMIT, rng.randint(-30, 5)])
        c['hi'] = rng.choice([0 if c['lo'] not in (0, ) and c['lo'] < 0 or c['lo'] == NOLIMIT else 7, NOLIMIT, rng.randint(6, 40)])
    two = [k for k, v in p['vars'].items() if v['d'] == 2]
    one = [k for k, v in p['vars'].items() if v['d'] == 1]
    return c, two, one


def names(rng, c, p, sfx, shape, compare):
    two = [k for k, v in p['vars'].items() if v['d'] == 2]
    kw = {}
    if compare:
        c['op'] = op = rng.choice(['waveforms_delta_im', 'waveforms_delta_hist', 'waveforms_hist', 'waveforms_scatter', 'waveforms_hexbin', 'locations'])
    else:
        c['op'] = op = rng.choice(['im', 'im', 'im_line', 'im_line', 'im_line', 'line', 'line', 'waveform_im', 'waveform_hist', 'waveform_line', 'waveform_3d_surf', 'locations'])
    if op in ('im', 'im_line'):
        c['z'] = rng.choice(two + two + ['', 'nosuch', 'gamma'])
        if c['z']:
            kw['z'] = c['z']
        if op == 'im_line' and c['z'] in two:
            m = p['vars'][c['z']]['m']
            c['i'] = rng.choice([-1, 0, rng.randrange(len(m[0]))])
            c['j'] = rng.choice([-1, 0, rng.randrange(len(m))])
            if c['i'] >= 0:
                kw['xind'] = c['i']
            if c['j'] >= 0:
                kw['yind'] = c['j']
    elif op == 'line':
        fam = rng.choice([['gamma', 'delta'], ['nb', 'lat' + sfx, 'lon' + sfx]])
        c['x'], c['y'] = rng.choice(fam + ['index', 'index', '']), rng.choice(fam + fam + [''])
        kw.update(x=c['x'] or None, y=c['y'] or None)
    elif op == 'waveform_line':
        c['i'], c['j'] = rng.choice([-1, 0, rng.randrange(shape[0])]), rng.choice([-1, 0, rng.randrange(shape[0])])
        kw.update(ind=None if c['i'] < 0 else c['i'], ref_ind=None if c['j'] < 0 else c['j'])
    if op in ('line', 'waveform_line', 'locations', 'waveform_3d_surf'):
        c['lo'] = c['hi'] = NOLIMIT
    a, b = ('zmin', 'zmax') if op in ('im', 'im_line') else ('vmin', 'vmax')
    if c['lo'] != NOLIMIT:
        kw[a] = c['lo']
    if c['hi'] != NOLIMIT:
        kw[b] = c['hi']
    return kw


def case(rng, d):
    from dedop.ui import compare, inspect
    two = rng.random() < .4
    l1bs = rng.random() < .2
    p, shape, sfx = product(rng, os.path.join(d, 'p.nc'), l1bs=l1bs)
    q = dict(p)
    if two:
        q, s2, _ = product(rng, os.path.join(d, 'q.nc'), shape=shape if rng.random() < .8 else None, l1bs=l1bs)
        q['vars'] = p['vars']
    REC.reset()
    REC.shape = shape
    Pages.made = []
    inter = rng.random() < .3
    stem, ext, fmt = ('', '', '') if inter else writer(rng, d)
    path = stem + ('.' + ext if ext else '')
    a = [os.path.join(d, 'p.nc')] + ([os.path.join(d, 'q.nc')] if two else [])
    f = compare.compare_l1b_products if two else inspect.inspect_l1b_product
    kw = {}
    if not inter:
        kw = dict(output_path=path)
        if fmt:
            kw['output_format'] = fmt
    x, why, _ = attempt(f, *a, **kw)
    o = dict(p=p, q=q, two=two, inter=inter, ext=ext, fmt=fmt.lower(), dir=path, open=why, info=[], calls=[], pages=0, pdf='', closed=True)
    if x is None:
        return o
    pr = [x.p1, x.p2] if two else [x]

    def info(y):
        return dict(dims=[int(y.num_times), int(y.num_samples)], wave=rows(y.waveform), wrange=[cell(v) for v in y.waveform_range],
                    lat=rows(y.lat)[0], lon=rows(y.lon)[0], latr=[cell(v) for v in y.lat_range], lonr=[cell(v) for v in y.lon_range],
                    vars=sorted(y.var_names))
    for y in pr:
        r, w, _ = attempt(info, y)
        o['info'].append(r or dict(dims=[0, 0], wave=[], wrange=[], lat=[], lon=[], latr=[], lonr=[], vars=[]))
    for _ in range(rng.randint(2, 6)):
        c, _, _ = call(rng, p, sfx, shape)
        k = names(rng, c, p, sfx, shape, two)
        if inter and c['op'] == 'line' and not (c['x'] and c['y']):
            continue                    # asks for what is not given
        if inter and c['op'] == 'im_line' and (c['i'] < 0 or c['j'] < 0) or inter and c['op'] == 'waveform_line' and c['i'] < 0:
            if c['op'] == 'im_line':    # sliders that begin with 0
                c['i'], c['j'] = max(0, c['i']), max(0, c['j'])
            elif c['i'] < 0:
                c['i'] = 0
        REC.reset()
        r, w, out = attempt(getattr(x.plot, c['op']), **k)
        figs = REC.saved + REC.shown
        c['out'] = w or ('figure' if figs else 'message' if out.strip() else 'nothing')
        c['n'] = len(figs)
        c['offer'] = REC.offer
        if REC.offer:
            c['z'] = REC.chosen
        c['name'] = figs[0]['name'] if figs else ''
        c['where'] = figs[0].get('dir', '') if figs else ''
        c['items'] = figs[0]['items'] if figs else []
        o['calls'].append(c)
    y, w, _ = attempt(x.close)
    o['closed'] = w == '' and not any(z.dataset.isopen() for z in pr) and not any(m.open for m in Pages.made)
    o['pages'] = sum(m.pages for m in Pages.made)
    o['pdf'] = Pages.made[0].path if Pages.made else ''
    if len(Pages.made) > 1:
        o['pdf'] = 'several'
    return o
