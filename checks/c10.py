"""C10: a crash or an i/o error in the middle of an operation never damages a configuration or anything else that was there"""
import json
import os
import subprocess

import vlib
from checks import storecheck as sc

WS = ['a', 'b', 'default']
CF = ['x', 'y', 'default']
KEYS = ['CHD', 'CNF', 'CST']


def text(rng):
    d = {'__metainf__': {'version': rng.randint(0, 5)}}
    for i in range(rng.choice([1, 3, 10, 400])):
        d['p%d' % i] = {'value': rng.random(), 'units': 'm'}
    return json.dumps(d, indent=rng.choice([None, 2]))


def history(rng, op):
    setup = []

    def o(name, *a):
        setup.append({'op': name, 'a': list(a)})
    ws = rng.sample(WS, rng.randint(1, 2))
    for w in ws:
        o('create_ws', w)
        for c in rng.sample(CF, rng.randint(1, 2)):
            o('create_cfg', w, c, rng.choice(['s3', 'cryosat']))
            if rng.random() < .5:
                o('set_cur_cfg', w, c)
        setup += sc.fill(rng, w)
        if rng.random() < .5:
            o('add_inputs', w, [[rng.choice(['f.nc', 'g.nc']), 'd%d' % rng.randint(1, 3)]])
    if rng.random() < .6:
        o('set_cur', rng.choice(ws))
    w = rng.choice(ws)
    cs = [x['a'][1] for x in setup if x['op'] == 'create_cfg' and x['a'][0] == w]
    c = rng.choice(cs)
    free = [x for x in CF + ['z'] if x not in cs]
    nw = [x for x in WS + ['n'] if x not in ws]
    if op in ('create_ws',):
        a = [rng.choice(nw)]
    elif op in ('delete_ws', 'set_cur'):
        a = [w]
    elif op in ('copy_ws', 'rename_ws'):
        a = [w, rng.choice(nw)]
    elif op == 'delete_all':
        a = []
    elif op == 'create_cfg':
        a = [w, rng.choice(free), rng.choice(['s3', 'cryosat'])]
    elif op in ('delete_cfg', 'set_cur_cfg'):
        a = [w, c]
    elif op in ('copy_cfg', 'rename_cfg'):
        a = [w, c, rng.choice(free)]
    elif op == 'add_inputs':
        a = [w, [[f, 'd%d' % rng.randint(1, 4)] for f in rng.sample(['f.nc', 'g.nc', 'L1A_01.nc', 'h.nc'], rng.randint(1, 3))]]
    elif op == 'remove_inputs':
        a = [w, [f for f in rng.sample(['f.nc', 'g.nc', 'L1A_01.nc', 'nope.nc'], rng.randint(1, 3))]]
    elif op == 'remove_outputs':
        o('env_write', [w, 'configs', c, 'outputs', 'L1B_1.nc'], 'd1')
        o('env_write', [w, 'configs', c, 'outputs', 'note.txt'], 'd2')
        a = [w, c]
    elif op == 'save':
        a = [w, c, [[k, text(rng)] for k in rng.sample(KEYS, rng.choice([1, 1, 2]))]]
    elif op == 'websave':
        a = [w, c, [[k, text(rng)] for k in KEYS]]
    elif op == 'upgrade':
        ks = rng.sample(KEYS, rng.choice([1, 1, 3]))
        for k in ks:
            setup.append({'op': 'old_config', 'a': [w, c, k, 'old' if rng.random() < .8 else 'new']})
        a = [w, c, [[k, ''] for k in ks]]
    return {'setup': setup, 'o': {'op': op, 'a': a}}


OPS = ['save'] * 5 + ['websave'] * 3 + ['upgrade'] * 3 + ['create_ws', 'delete_ws', 'copy_ws', 'rename_ws', 'set_cur', 'delete_all', 'create_cfg', 'delete_cfg',
                                                        'copy_cfg', 'copy_cfg', 'rename_cfg', 'set_cur_cfg', 'add_inputs', 'add_inputs',
                                                        'remove_inputs', 'remove_outputs']


def run(ctx):
    mc = 'SPECIFICATION Spec\nCONSTANTS %s\nCHECK_DEADLOCK FALSE\nINVARIANT Interrupted WellFormed Unique Recoverable\n'
    for k in (['Ws={"a"} Cf={"x"} MaxOps=4', 'Ws={"a","b"} Cf={"x"} MaxOps=3'] if not ctx.thorough else
              ['Ws={"a"} Cf={"x"} MaxOps=6', 'Ws={"a","b"} Cf={"x"} MaxOps=4', 'Ws={"a"} Cf={"x","y"} MaxOps=5']):
        ctx.model_check('MCCrash', mc % k, workers=8)
    so = os.path.join(ctx.scratch('shim'), 'shim.so')
    p = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', so, os.path.join(vlib.HOME, 'lib', 'shim.c'), '-ldl'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode:
        raise vlib.MachineryError('shim: ' + p.stdout[-500:])
    hs = [history(ctx.rng, OPS[i % len(OPS)]) for i in range(ctx.n(len(OPS) * 3, len(OPS) * 24))]
    procs = 8
    jobs = [{'dir': os.path.join(ctx.scratch('crash'), 'd'), 'histories': hs[i::procs * 2], 'all': ctx.n(40, 400), 'every': 4} for i in range(procs * 2)]
    env = dict(os.environ, LD_PRELOAD=so)
    res = vlib.parallel('crashrun.py', jobs, procs=procs, timeout=800, env=env)
    cases = []
    for r in res:
        if isinstance(r, dict):
            raise vlib.MachineryError(r['_crash'])
        cases += r
    ctx.report(cases, ctx.judge('CrashTrace', cases, workers=8))
    runs = [r for c in cases for r in c['runs']]
    ctx.extra['interruptions'] = {m: sum(r['mode'] == m for r in runs) for m in ('kill', 'fail', 'full')}
    ctx.extra['operations'] = len(cases)
    ctx.extra['errors reported'] = sum(r['res'] == 'err' for r in runs)
    for c in cases[:3]:
        ctx.sample([c['o']['op'], c['_what'], [[r['mode'], r['k'], r['what'], r['res']] for r in c['runs']][:12]])
    ctx.assumptions = ['a killed process: what reached the file system stays (no power failure)', 'POSIX rename is atomic',
                       'one process at a time']
