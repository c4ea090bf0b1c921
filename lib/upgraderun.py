"""worker: upgrades configurations with an overlay of the package that ships other default files"""
import contextlib
import io
import json
import os
import re
import shutil
import sys

import vlib
from guard import guarded

KEYS = ('CHD', 'CNF', 'CST')


def tok(obj):
    return 'J' + vlib.digest(json.dumps(obj, sort_keys=True).encode())


def doc(text):
    try:
        o = json.loads(text)
        if not isinstance(o, dict):
            raise ValueError
    except ValueError:
        return {'ok': False, 'v': -2, 'meta': text[:40], 'p': []}
    m = o.pop('__metainf__', None)
    return {'ok': True, 'v': -1 if m is None else m['version'], 'meta': 'none' if m is None else tok(m),
            'p': sorted([k, tok(v)] for k, v in o.items())}


def default_doc(text):
    d = doc(text)
    m = json.loads(text)['__metainf__']
    d['log'] = [{'v': c['version'], 'ch': [[p[0], p[1]] for p in c['parameters']]} for c in m['changelog']]
    return d


def main(job):
    over = job['overlay']
    os.makedirs(over)
    shutil.copytree(os.path.join(vlib.REPO, 'dedop'), os.path.join(over, 'dedop'), ignore=shutil.ignore_patterns('*.pyc', '__pycache__'))
    cdir = os.path.join(over, 'dedop', 'ui', 'data', 'config')
    for k, text in (job['defaults'] or {}).items():
        with open(os.path.join(cdir, k + '.json'), 'w') as fp:
            fp.write(text)
    sys.path.insert(0, over)
    for m in [m for m in sys.modules if m == 'dedop' or m.startswith('dedop.')]:
        del sys.modules[m]
    import dedop
    assert os.path.realpath(dedop.__file__).startswith(os.path.realpath(over)), dedop.__file__
    from dedop.ui.workspace_manager import WorkspaceManager
    import dedop.cli.main as cli
    from dedop.webapi import websocket
    defs = {}
    for k in KEYS:
        with open(os.path.join(cdir, k + '.json')) as fp:
            defs[k] = default_doc(fp.read())
    cases = []
    for n, steps in enumerate(job['cases']):
        root = os.path.join(over, 'ws%d' % n)
        wm = WorkspaceManager(workspaces_dir=root)
        wm.create_workspace('w')
        out = []
        for s in steps:
            ret, res = [], 'ok'
            buf = io.StringIO()
            try:
                if s['op'] == 'put':
                    for k, text in s['files'].items():
                        p = os.path.join(root, 'w', 'configs', s['c'])
                        os.makedirs(p, exist_ok=True)
                        with open(os.path.join(p, k + '.json'), 'w') as fp:
                            fp.write(text)
                else:
                    with guarded(), contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
                        ret = call(s, wm, cli, websocket, root)
                    if s['op'].startswith('cli'):
                        if ret != 0:
                            res, ret = 'status %s' % ret, []
                        else:
                            ret = [int(v) if v else -1 for v in re.findall(r'(?:version (-?\d+)|no-version)$', buf.getvalue(), re.M)]
            except Exception as e:
                res, ret = type(e).__name__, []
            files = []
            for cf in sorted(os.listdir(os.path.join(root, 'w', 'configs'))) if os.path.isdir(os.path.join(root, 'w', 'configs')) else []:
                for f in sorted(os.listdir(os.path.join(root, 'w', 'configs', cf))):
                    if f == 'outputs':
                        continue
                    with open(os.path.join(root, 'w', 'configs', cf, f), errors='replace') as fp:
                        files.append({'c': cf, 'k': f[:-5] if f.endswith('.json') else f, 'doc': doc(fp.read())})
            out.append({'op': s['op'], 'c': s['c'], 'k': s['k'], 'res': res, 'ret': ret, 'files': files})
        cases.append({'defs': defs, 'steps': out})
        shutil.rmtree(root, ignore_errors=True)
    shutil.rmtree(over, ignore_errors=True)
    return cases


def call(s, wm, cli, websocket, root):
    op, c, k = s['op'], s['c'], s['k']
    if op == 'one':
        return [wm.upgrade_config('w', c, k)]
    if op == 'all':
        return list(wm.upgrade_all_config('w', c))
    if op == 'web':
        websocket.WebSocketService(wm).upgrade_configs('w', c)
        return []
    if op == 'cli':
        return cli.main(['config', s['pick'][0], '-w', 'w', c], workspace_manager=wm)
    if op == 'cliver':
        return cli.main(['c', s['pick'][1], '-w', 'w', c], workspace_manager=wm)
    if op == 'ver':
        return [wm.get_config_version('w', c, k)]
    if op == 'vers':
        return list(wm.get_all_config_version('w', c))
    if op == 'defver':
        return [wm.get_default_config_version(k)]
    if op == 'load':
        d = os.path.join(root, 'w', 'configs', c)
        shipped = os.path.join(os.path.dirname(websocket.__file__), os.pardir, 'ui', 'data', 'config')
        if not READ:
            READ.append([readable(o) for o in loaded(shipped)])
        for o, attrs in zip(loaded(d), READ[0]):
            for a in attrs:
                getattr(o, a)
        return []


READ = []


def loaded(d):
    from dedop.conf import CharacterisationFile, ConfigurationFile, ConstantsFile
    cst = ConstantsFile(os.path.join(d, 'CST.json'))
    return cst, CharacterisationFile(cst, os.path.join(d, 'CHD.json')), ConfigurationFile(os.path.join(d, 'CNF.json'))


def readable(o):
    # the attributes the shipped files provide
    out = []
    for a in vars(type(o)):
        if not a.startswith('_'):
            try:
                getattr(o, a)
            except Exception:
                continue
            out.append(a)
    return out


if __name__ == '__main__':
    vlib.worker_main(main)
