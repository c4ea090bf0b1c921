"""worker (run with the shim preloaded): interrupts operations of the store at every file system call"""
import contextlib
import ctypes
import errno
import io
import json
import os
import shutil
import sys

import storeh
import vlib
from guard import guarded

LIB = ctypes.CDLL(None)
LIB.shim_what.restype = ctypes.c_char_p
MODES = {'none': 0, 'kill': 1, 'half': 2, 'fail': 3, 'full': 4}


def act(drv, o):
    op, a = o['op'], o['a']
    if op == 'save':
        for k, text in a[2]:
            drv.wm.write_config_file(a[0], a[1], k, text)
        return []
    if op == 'websave':
        from dedop.webapi import websocket
        websocket.WebSocketService(drv.wm).save_configs(a[0], a[1], {k.lower(): json.loads(t) for k, t in a[2]})
        return []
    if op == 'upgrade':
        for k, _ in a[2]:
            drv.wm.upgrade_config(a[0], a[1], k)
        return []
    return drv.call(op, a)


def forked(drv, o, mode, k, err):
    """the operation in a process of its own; returns (res, number of calls, name of call k)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            res = 'ok'
            with contextlib.redirect_stdout(io.StringIO()):
                LIB.shim_arm(drv.root.encode(), MODES[mode], k, err)
                try:
                    with guarded():
                        act(drv, o)
                except Exception as e:
                    res = 'err'
                n = LIB.shim_count()
                LIB.shim_off()
            os.write(w, json.dumps([res, n, [LIB.shim_what(i).decode() for i in range(1, n + 1)]]).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    if not data:
        return 'killed', 0, []
    return tuple(json.loads(data.decode()))


def usable(drv):
    """reading the store works whatever was left behind"""
    try:
        with guarded():
            drv.wm.get_current_workspace()
            for w in drv.wm.get_workspace_names() or []:
                drv.wm.get_current_config_name(w)
                drv.wm.get_input_names(w)
                for c in drv.wm.get_config_names(w) or []:
                    drv.wm.config_exists(w, c)
        return 'ok'
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)


def history(job, h, n):
    scratch = os.path.join(job['dir'], 'h%d' % n)
    os.makedirs(scratch)
    drv = storeh.Driver(scratch)
    for o in h['setup']:
        if o['op'] == 'old_config':
            p = os.path.join(drv.root, o['a'][0], 'configs', o['a'][1], o['a'][2] + '.json')
            if os.path.isfile(p):
                with open(os.path.join(vlib.REPO, 'dedop', 'ui', 'data', 'config', o['a'][2] + '.json')) as fp:
                    d = json.load(fp)
                if o['a'][3] == 'old':
                    d.pop('__metainf__', None)
                with open(p, 'w') as fp:
                    json.dump(d, fp, indent=1)
        else:
            drv.step(o)
    keep = os.path.join(scratch, 'keep')
    there = os.path.isdir(drv.root)
    if there:
        shutil.copytree(drv.root, keep)
    trees, index = [], {}

    def tree():
        t = drv.project()
        key = json.dumps(t)
        if key not in index:
            trees.append(t)
            index[key] = len(trees)
        return index[key]

    def restore():
        shutil.rmtree(drv.root, ignore_errors=True)
        if there:
            shutil.copytree(keep, drv.root)
    o = h['o']
    tree()
    runs = []
    res, count, what = forked(drv, o, 'none', 0, 0)
    after = drv.project()
    a = storeh.model_args(o['op'], o['a'])
    if o['op'] in ('save', 'websave', 'upgrade'):
        toks = {json.dumps(p): c for p, c in after}
        fs = []
        for k, text in o['a'][2]:
            p = json.dumps([o['a'][0], 'configs', o['a'][1], k + '.json'])
            t = vlib.digest(text.encode()) if o['op'] == 'save' else toks.get(p, 'none')
            fs.append([k, t])
        a = [o['a'][0], o['a'][1], fs]
    runs.append({'mode': 'none', 'k': 0, 'what': '', 'res': res, 'ret': [], 't': tree(), 'use': 'ok', 'again': 0})
    errs = [errno.ENOSPC, errno.EACCES, errno.EIO]
    for k in range(1, count + 1):
        for mode in ('kill', 'half', 'fail', 'full'):
            if k > job['all'] and (k + len(mode) + n) % job['every']:
                continue
            if mode == 'half' and what[k - 1] not in ('write', 'sendfile', 'copy_range'):
                continue
            restore()
            res, _, _ = forked(drv, o, mode, k, errs[(k + n) % 3])
            run = {'mode': 'kill' if mode == 'half' else mode, 'k': k, 'what': what[k - 1] + (' half' if mode == 'half' else ''),
                   'res': res, 'ret': [], 't': tree(), 'use': usable(drv), 'again': 0}
            if o['op'] in ('save', 'websave', 'upgrade') and mode in ('kill', 'half'):
                forked(drv, o, 'none', 0, 0)
                run['again'] = tree()
            runs.append(run)
    case = {'o': {'op': o['op'], 'a': a}, 'trees': trees, 'runs': runs, '_setup': h['setup'], '_what': what}
    case.update(storeh.templates())
    case['names'] = []
    shutil.rmtree(scratch, ignore_errors=True)
    return case


def main(job):
    os.makedirs(job['dir'])
    LIB.shim_off()
    import dedop.webapi.websocket  # noqa: everything is loaded before the first operation
    import dedop.ui.workspace_manager  # noqa
    import dedop.conf  # noqa
    return [history(job, h, i) for i, h in enumerate(job['histories'])]


if __name__ == '__main__':
    vlib.worker_main(main)
