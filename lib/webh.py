"""Drives the real JSON-RPC service object and records histories for WebTrace."""
import contextlib
import io
import json
import os
import shutil

import shellh
import storeh
import vlib
from guard import guarded

KEYS = ('CHD', 'CNF', 'CST')


def jtoken(obj):
    return 'J' + vlib.digest(json.dumps(obj, sort_keys=True).encode())


def ftoken(data):
    try:
        return jtoken(json.loads(data.decode('utf-8')))
    except ValueError:
        return vlib.digest(data)


def templates():
    base = os.path.join(vlib.REPO, 'dedop', 'ui', 'data')
    return {key: {k + '.json': ftoken(open(os.path.join(base, d, k + '.json'), 'rb').read()) for k in KEYS}
            for key, d in (('s3', 'config'), ('cryosat', 'cryosat_config'))}


class Web(shellh.Shell):
    def __init__(self, scratch, rng):
        super().__init__(scratch)
        from dedop.webapi import websocket
        self.service = websocket.WebSocketService(self.wm)
        self.rng = rng
        self.saved = {}

    def project(self):
        t = super().project()
        for e in t:
            if len(e[0]) == 4 and e[0][1] == 'configs' and e[0][3].endswith('.json') and e[1] != 'DIR':
                with open(os.path.join(self.root, *e[0]), 'rb') as fp:
                    e[1] = ftoken(fp.read())
        return t

    def ws_json(self, d):
        json.dumps(d)
        if d['name'] is None:
            return []
        if d['name'] and os.path.abspath(d['workspace_dir']) != os.path.join(self.root, d['name']):
            return [d['name'], 'WRONG DIR']
        return [d['name']]

    def webcall(self, o):
        s, op, a = self.service, o['op'][4:], o['a']
        if op == 'new':
            return self.ws_json(s.new_workspace(a[0]))
        if op == 'delete':
            return storeh.lst(s.delete_workspace(a[0]))
        if op == 'copy':
            return self.ws_json(s.copy_workspace(a[0], a[1]))
        if op == 'rename':
            return self.ws_json(s.rename_workspace(a[0], a[1]))
        if op == 'cur':
            return self.ws_json(s.get_current_workspace())
        if op == 'set_cur':
            return self.ws_json(s.set_current_workspace(a[0]))
        if op == 'all':
            r = sorted((self.ws_json(d) for d in storeh.lst(s.get_all_workspaces()['workspaces'])))
            return sum(r, [])
        if op == 'add_inputs':
            s.add_input_files(a[0], [self.src.path(f, c) for f, c in o['p']])
            return []
        if op == 'rm_inputs':
            s.remove_input_files(a[0], list(o['x']))
            return []
        if op == 'cfgs':
            return storeh.lst(s.get_config_names(a[0]))
        if op == 'add_cfg':
            s.add_new_config(a[0], a[1], a[2] == 'cryosat')
            return []
        if op == 'rm_cfg':
            s.delete_config(a[0], a[1])
            return []
        if op == 'cp_cfg':
            s.copy_config(a[0], a[1], a[2])
            return []
        if op == 'rn_cfg':
            s.rename_config(a[0], a[1], a[2])
            return []
        if op == 'cur_cfg':
            n = s.get_current_config(a[0])['name']
            return [] if n is None else [n]
        if op == 'set_cur_cfg':
            s.set_current_config(a[0], a[1])
            return []
        if op == 'get_cfgs':
            r = json.loads(json.dumps(s.get_configs(a[0], a[1])))
            out = []
            for k in ('chd', 'cnf', 'cst'):
                t = jtoken(r[k])
                if sorted(r[k + '_order']) != sorted(r[k]):
                    t = 'order does not list the parameters'
                out.append(t)
            return out if r['name'] == a[1] else ['WRONG NAME']
        if op == 'save':
            s.save_configs(a[0], a[1], json.loads(json.dumps(dict(zip(('chd', 'cnf', 'cst'), o['_objs'])))))
            return []
        if op == 'process':
            self.jobs = []
            from dedop.proc.sar.processor import L1BProcessor as P
            keep = P.__init__, P.process
            fac = self.factory()

            def init(me, name, cnf_file, cst_file, chd_file, out_path, skip_l1bs=True):
                me._fake = fac(name, cnf_file, cst_file, chd_file, out_path, skip_l1bs)
            P.__init__, P.process = init, lambda me, l1a_file, monitor=self.null: me._fake.process(l1a_file, monitor)
            try:
                s.process(a[0], a[1], a[2], self.path(a[3]), self.path(a[4]), self.null)
            finally:
                P.__init__, P.process = keep
            return self.jobs
        if op == 'outputs':
            return storeh.lst(s.get_output_names(a[0], a[1]))
        if op == 'rm_outputs':
            s.remove_output_files(a[0], a[1])
            return []
        if op in ('inspect', 'compare', 'launch'):
            self.launched = []
            if op == 'inspect':
                s.inspect_output(a[0], self.path(a[1]))
            elif op == 'compare':
                s.compare_outputs(a[0], self.path(a[1]), self.path(a[2]))
            else:
                s.launch_notebook(a[0], a[1])
            return [self.label(p) for p in self.launched]
        if op == 'notebooks':
            return storeh.lst(s.get_notebook_file_names(a[0]))
        raise vlib.MachineryError('unknown op ' + op)

    def wstep(self, o):
        o.setdefault('x', [])
        o.setdefault('p', [])
        if not o['op'].startswith('web_'):
            rec = self.step(o)
            rec.update(x=[], p=[])
            return rec
        if o['op'] == 'web_save':
            o['_objs'] = self.edited(o)
            o['x'] = [jtoken(x) for x in o['_objs']]
        rec = {'op': o['op'], 'a': o['a'], 'x': o['x'], 'p': [[f, storeh.Sources.token(c)] for f, c in o['p']], 'ret': []}
        try:
            with guarded(), contextlib.redirect_stdout(io.StringIO()):
                ret = self.webcall(o)
            rec.update(res='ok', ret=[str(x) for x in ret])
        except vlib.MachineryError:
            raise
        except Exception as e:
            rec.update(res='err', _msg='%s: %s' % (type(e).__name__, e))
            if o['op'] == 'web_process':
                rec['ret'] = list(self.jobs)
        rec['tree'] = self.project()
        return rec

    def edited(self, o):
        """what a user of the studio saves: the shipped configuration with some values changed"""
        out = []
        base = os.path.join(vlib.REPO, 'dedop', 'ui', 'data', self.rng.choice(['config', 'cryosat_config']))
        for k in KEYS:
            with open(os.path.join(base, k + '.json'), encoding='utf-8') as fp:
                c = json.load(fp)
            for name in self.rng.sample(sorted(c), 2):
                if isinstance(c[name], dict) and 'value' in c[name]:
                    c[name]['value'] = self.rng.choice([0, 1, -2.5, 1e-9, True, 'caf\u00e9', [1, 2], None])
            if self.rng.random() < .3:
                c['extra'] = {'value': self.rng.random(), 'description': 'quote " and \\ and \u00fc'}
            out.append(c)
        return out


def record(ctx, ops):
    scratch = ctx.scratch('web')
    d = Web(scratch, ctx.rng)
    steps = [d.wstep(o) for o in ops]
    case = {'steps': [{k: v for k, v in s.items() if not k.startswith('_')} for s in steps],
            '_steps': [{k: v for k, v in s.items() if k != 'tree'} for s in steps]}
    case.update(templates())
    case.update(d.const())
    case['names'] = storeh.universe(steps)
    shutil.rmtree(scratch, ignore_errors=True)
    return case
