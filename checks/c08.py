"""C08: upgrading a configuration keeps the user's settings except for what the new version changed"""
import json
import os

import vlib

KEYS = ('CHD', 'CNF', 'CST')
VALUES = [0, 1, -2.5, 1e-9, 299792458.0, 13575000000.0, True, False, None, 'exact', 'caf\u00e9 " \\', [1, 2, 3.25], [], {'a': {'b': []}}, 10 ** 18, 0.1]


def param(rng, tag):
    d = {'value': rng.choice(VALUES), 'units': rng.choice(['m', None, 'flag']), 'description': '%s %d' % (tag, rng.randint(0, 10 ** 6))}
    if rng.random() < .2:
        del d[rng.choice(['units', 'description'])]
    return d


def names(rng, k):
    pool = ['flag_a', 'b', 'N_looks', 'zp', 'min_lat', 'width', 'c', 'antenna'] if rng.random() < .7 else ['p', 'q', 'r']
    return [n + '_' + k.lower() for n in pool]


def default(rng, k):
    """a default file with its change log: the parameters are those it leaves behind"""
    ns = names(rng, k)
    top = rng.choice([0, 1, 2, 3, 4, 6])
    vs = [v for v in range(top + 1) if v == top or rng.random() < .85]
    live = set(rng.sample(ns, rng.randint(1, len(ns))))
    log = []
    for v in vs:
        ch = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5])):
            n = rng.choice(ns)
            kind = rng.choice('-*') if n in live else '+'
            if rng.random() < .1:
                kind = rng.choice('+*-')
            live.add(n) if kind in '+*' else live.discard(n)
            ch.append([n, kind, 'why'][:rng.choice([2, 3, 3])])
        e = {'version': v, 'parameters': ch}
        if rng.random() < .7:
            e['comment'] = 'c%d' % v
        log.append(e)
    d = {'__metainf__': {'description': 'd', 'version': top, 'changelog': log}}
    for n in sorted(live, key=lambda x: rng.random()):
        d[n] = param(rng, 'default')
    return d, ns


def old(rng, d, ns):
    """a file of the user, of some version"""
    top = d['__metainf__']['version']
    v = rng.randint(-1, top + 1)
    o = {}
    for n in ns + ['own_1', 'own_2']:
        if rng.random() < .6:
            o[n] = param(rng, 'user')
        elif n in d and rng.random() < .5:
            o[n] = d[n]
    if v >= 0:
        o['__metainf__'] = {'description': 'user', 'version': v}
        if rng.random() < .7:
            o['__metainf__']['changelog'] = [e for e in d['__metainf__']['changelog'] if e['version'] <= v]
    items = list(o.items())
    rng.shuffle(items)
    return dict(items)


def genuine(rng, d):
    """the shipped file as an earlier version would have shipped it"""
    m = d['__metainf__']
    v = rng.randint(-1, m['version'])
    o = {k: x for k, x in d.items() if k != '__metainf__'}
    for e in reversed(m['changelog']):
        if e['version'] > v:
            for p in e['parameters']:
                if p[1] == '+':
                    o.pop(p[0], None)
                else:
                    o[p[0]] = param(rng, 'old')
    if v >= 0:
        o['__metainf__'] = {'description': m['description'], 'version': v, 'changelog': [e for e in m['changelog'] if e['version'] <= v]}
    if rng.random() < .4:
        o['own_parameter'] = param(rng, 'own')
    return o


def history(rng, files, real):
    steps = []

    def put(c):
        fs = {}
        for k in KEYS:
            r = rng.random()
            if r < .04 and not real:
                fs[k] = rng.choice(['', '{', '{"a": ', '[1'])
            elif r > .03 or real:
                fs[k] = json.dumps(files(k), ensure_ascii=rng.random() < .8, indent=rng.choice([None, 2, 4]), sort_keys=rng.random() < .3)
        steps.append({'op': 'put', 'c': c, 'k': '', 'files': fs})
    cs = ['default', 'x', 'my config']
    for c in rng.sample(cs, rng.randint(1, 3)):
        put(c)
    for _ in range(rng.randint(3, 10)):
        op = rng.choice(['one', 'one', 'one', 'all', 'all', 'cli', 'cli', 'web', 'ver', 'vers', 'cliver', 'defver', 'put'] + ['load', 'load'] * real)
        c = rng.choice(cs)
        if op == 'put':
            put(c)
        else:
            steps.append({'op': op, 'c': c, 'k': rng.choice(KEYS), 'pick': [rng.choice(['upgrade', 'up']), rng.choice(['version', 'v'])]})
    return steps


def run(ctx):
    rng = ctx.rng
    mc = 'SPECIFICATION Spec\nCONSTANTS NS={"a","b"} MaxV=%d MaxCh=%d\nCHECK_DEADLOCK FALSE\nINVARIANT Agrees Idempotent ByWay OwnKept NeverDown\n'
    ctx.model_check('MCUpgrade', mc % (1, 1), workers=8)
    ctx.model_check('MCUpgrade', mc % ((2, 1) if not ctx.thorough else (3, 1)), workers=8)
    if ctx.thorough:
        ctx.model_check('MCUpgrade', mc % (1, 2), workers=8)
    jobs = []
    base = os.path.join(vlib.REPO, 'dedop', 'ui', 'data', 'config')
    for i in range(ctx.n(24, 160)):
        if i % 4 == 3:
            ds = {}
            for k in KEYS:
                with open(os.path.join(base, k + '.json'), encoding='utf-8') as fp:
                    ds[k] = json.load(fp)
            jobs.append({'overlay': os.path.join(ctx.scratch('over'), 'o'), 'defaults': None,
                         'cases': [history(rng, lambda k: genuine(rng, ds[k]), True) for _ in range(ctx.n(8, 30))]})
        else:
            dn = {k: default(rng, k) for k in KEYS}
            jobs.append({'overlay': os.path.join(ctx.scratch('over'), 'o'), 'defaults': {k: json.dumps(d, indent=2) for k, (d, _) in dn.items()},
                         'cases': [history(rng, lambda k: old(rng, *dn[k]), False) for _ in range(ctx.n(12, 40))]})
    res = vlib.parallel('upgraderun.py', jobs, procs=8, timeout=300)
    cases = []
    for r in res:
        if isinstance(r, dict):
            raise vlib.MachineryError(r['_crash'])
        cases += r
    ctx.report(cases, ctx.judge('UpgradeTrace', cases, workers=8))
    ctx.extra['upgrades'] = sum(s['op'] in ('one', 'all', 'cli', 'web') for c in cases for s in c['steps'])
    ctx.extra['default sets'] = len(jobs)
    for c in cases[:2]:
        ctx.sample([[s['op'], s['c'], s['k'], s['res'], s['ret']] for s in c['steps']])
    ctx.assumptions = ['change logs in ascending order of versions, as shipped', 'cate replaced by a stand-in',
                       'an overlay of the package with other default files stands for other versions of DeDop']
