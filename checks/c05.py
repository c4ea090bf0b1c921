"""C05: the web service's methods have exactly the documented effect on the store and keep the current ones valid"""
import webh
from checks import storecheck as sc
from checks.shellcheck import WS, CF


def history(rng, length):
    few = rng.random() < .6
    wss, cfs = (rng.sample(WS, 3), rng.sample(CF, 3)) if few else (WS, CF)
    if few and rng.random() < .6:      # 'default' is preferred over names before and after it
        cfs = ['default'] + rng.sample([x for x in CF if x != 'default'], 2)
    ws, ops = {}, []

    def o(op, *a, **kw):
        d = {'op': 'web_' + op, 'a': list(a)}
        d.update(kw)
        ops.append(d)

    def w():
        return rng.choice(sorted(ws)) if ws and rng.random() < .88 else rng.choice(wss)

    def c(x):
        k = sorted(ws.get(x, ()))
        return rng.choice(k) if k and rng.random() < .88 else rng.choice(cfs)
    kinds = ['new'] * 5 + ['delete', 'delete', 'copy', 'copy', 'rename', 'rename', 'rename', 'cur', 'set_cur', 'set_cur', 'set_cur', 'all',
                           'add_inputs', 'add_inputs', 'rm_inputs', 'cfgs', 'cur_cfg', 'get_cfgs', 'get_cfgs', 'save', 'save', 'process', 'process',
                           'outputs', 'rm_outputs', 'inspect', 'compare', 'notebooks', 'launch', 'fill', 'fill'] + \
        ['add_cfg'] * 6 + ['rm_cfg', 'rm_cfg', 'cp_cfg', 'cp_cfg', 'rn_cfg', 'rn_cfg', 'rn_cfg', 'set_cur_cfg', 'set_cur_cfg', 'set_cur_cfg']
    if rng.random() < .8:
        for x in rng.sample(wss, rng.randint(1, 2)):
            o('new', x)
            ws[x] = set()
            for y in rng.sample(cfs, rng.randint(1, min(3, len(cfs)))):
                o('add_cfg', x, y, rng.choice(['s3', 'cryosat']))
                ws[x].add(y)
                if rng.random() < .5:
                    o('set_cur_cfg', x, y)
            if rng.random() < .5:
                o('set_cur', x)
    while len(ops) < length:
        k = rng.choice(kinds)
        x = w()
        y = c(x)
        if k == 'new':
            n = rng.choice(wss) if rng.random() < .95 else rng.choice(['', '..', 'a/b'])
            o(k, n)
            if n in WS:
                ws.setdefault(n, set())
        elif k == 'delete':
            o(k, x)
            o('cur')
        elif k in ('copy', 'rename'):
            n = rng.choice(wss)
            o(k, x, n)
            ws.setdefault(n, set(ws.get(x, ())))
            if k == 'rename':
                o('cur')
        elif k in ('cur', 'all'):
            o(k)
        elif k == 'set_cur':
            o(k, x if rng.random() < .9 else '')
        elif k == 'add_inputs':
            o(k, x, p=[[rng.choice(sc.FILES), rng.choice(['d1', 'd2', 'd3', webh.storeh.NONE] if rng.random() < .2 else ['d1', 'd2'])]
                       for _ in range(rng.randint(0, 3))])
            ws.setdefault(x, set())
        elif k == 'rm_inputs':
            o(k, x, x=[rng.choice(sc.FILES) for _ in range(rng.randint(0, 3))])
        elif k == 'fill':
            if ws:
                z = rng.choice(sorted(ws))
                ops.extend(sc.fill(rng, z, sorted(ws[z])[:2]))
        elif k in ('cfgs', 'cur_cfg', 'notebooks'):
            o(k, x)
        elif k == 'add_cfg':
            y = rng.choice(cfs)
            o(k, x, y, rng.choice(['s3', 's3', 'cryosat']))
            if x in ws:
                ws[x].add(y)
        elif k in ('rm_cfg', 'get_cfgs', 'save', 'outputs', 'rm_outputs'):
            o(k, x, y)
            if k in ('rm_cfg',):
                o('cur_cfg', x)
            if k == 'save':
                o('get_cfgs', x, y)
        elif k == 'set_cur_cfg':
            o(k, x, y if rng.random() < .9 else '')
        elif k in ('cp_cfg', 'rn_cfg'):
            n = rng.choice(cfs)
            o(k, x, y, n)
            if x in ws:
                ws[x].add(n)
            if k == 'rn_cfg':
                o('cur_cfg', x)
        elif k == 'process':
            o(k, rng.choice(['p', 'q']), x, y, rng.choice(['ext/out', 'ext/o2']), rng.choice(['ext/p1.nc', 'ext/bad.nc', 'ext/p2.nc']))
        elif k == 'inspect':
            o(k, x, rng.choice(['ext/p1.nc', "ext/it's.nc", 'ext/p2.nc']))
        elif k == 'compare':
            o(k, x, rng.choice(['ext/p1.nc', 'ext/p2.nc']), rng.choice(["ext/it's.nc", 'ext/p2.nc', 'ext/p1.nc']))
        elif k == 'launch':
            o(k, x, rng.choice(['n-1.ipynb', 'inspect-p1.nc-1.ipynb']))
    return ops


MC = '''SPECIFICATION Spec
CONSTANTS Ws={"a","b","default"} Cf={"x","y"} MaxDepth=%d
CONSTRAINT Bounded
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT CurrentValid
PROPERTY FailedKeeps OthersKept SavedIsRead
'''


def run(ctx):
    ctx.model_check('MCWeb', MC % ctx.n(6, 8), workers=8)
    lists = [history(ctx.rng, ctx.rng.randint(10, 32)) for _ in range(ctx.n(200, 2500))]
    cases = [webh.record(ctx, ops) for ops in lists]
    ctx.report(cases, ctx.judge('WebTrace', cases, workers=8))
    n = [s for c in cases for s in c['_steps'] if s['op'].startswith('web_')]
    ctx.extra['calls'] = len(n)
    ctx.extra['calls_succeeded'] = sum(s['res'] == 'ok' for s in n)
    for c in cases[:2]:
        ctx.sample([[s['op'], s['a'], s['res'], s['ret']] for s in c['_steps']][:12])
    ctx.assumptions = ['the service object is called directly, not through a web socket', 'cate.util.monitor replaced by a stand-in']
