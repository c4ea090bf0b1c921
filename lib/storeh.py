"""Drives the real workspace store (manager API) and records histories for StoreTrace / ShellTrace / WebTrace."""
import contextlib
import io
import os

import vlib
from guard import guarded

NONE = '~none'


def file_token(path):
    with open(path, 'rb') as fp:
        data = fp.read()
    if os.path.basename(path) == '.current':
        return '=' + data.decode('utf-8', 'replace')
    return vlib.digest(data)


def tree(root):
    """[[path components, content], ...] of everything at or below root"""
    out = []
    if not os.path.isdir(root):
        return out
    out.append([[], 'DIR'])
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        parts = [] if rel == '.' else rel.split(os.sep)
        for x in sorted(dirs):
            out.append([parts + [x], 'DIR'])
        for x in sorted(files):
            p = os.path.join(d, x)
            out.append([parts + [x], file_token(p) if os.path.isfile(p) else 'SPECIAL'])
    return out


def templates():
    base = os.path.join(vlib.REPO, 'dedop', 'ui', 'data')
    res = {}
    for key, d in (('s3', 'config'), ('cryosat', 'cryosat_config')):
        res[key] = {f: vlib.digest(open(os.path.join(base, d, f), 'rb').read())
                    for f in ('CHD.json', 'CNF.json', 'CST.json')}
    return res


class Sources:
    """L1A files outside the store that can be added as inputs"""

    def __init__(self, d):
        self.dir = d

    def path(self, name, content, variant=0):
        d = os.path.join(self.dir, 'src_%s' % content)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, name)
        if content == NONE:
            return p          # does not exist
        with open(p, 'w') as fp:
            fp.write('content of %s' % content)
        return p

    @staticmethod
    def token(content):
        return NONE if content == NONE else vlib.digest(('content of %s' % content).encode())


def lst(x):
    return [] if x is None else list(x)


class Driver:
    """executes abstract operations on a fresh real store"""

    def __init__(self, scratch):
        from dedop.ui.workspace_manager import WorkspaceManager
        from dedop.util.monitor import Monitor
        self.root = os.path.join(scratch, 'p', 'q', 'workspaces')
        os.makedirs(os.path.dirname(self.root))
        # bystander files next to the store: nothing may ever touch them
        with open(os.path.join(scratch, 'p', 'q', 'bystander.txt'), 'w') as fp:
            fp.write('x')
        self.src = Sources(os.path.join(scratch, 'sources'))
        self.wm = WorkspaceManager(workspaces_dir=self.root)
        self.null = Monitor.NULL
        self.notebook_launches = []
        # launching the notebook server is not part of the store
        drv = self

        def fake_launch(title, notebook_dir, notebook_path=None):
            drv.notebook_launches.append(notebook_path)
        self.wm.launch_notebook = fake_launch

    def project(self):
        t = tree(self.root)
        by = os.path.join(os.path.dirname(self.root), 'bystander.txt')
        if sorted(os.listdir(os.path.dirname(self.root))) not in (['bystander.txt'], ['bystander.txt', 'workspaces']) \
                or not os.path.isfile(by):
            t.append([['..'], 'SOMETHING OUTSIDE THE STORE WAS CHANGED'])
        return t

    def ws(self, w):
        """a returned workspace: its name, and its directory if that is not where the workspace lives"""
        if w.name is None:
            return []
        if w.name and os.path.abspath(w.workspace_dir) != os.path.join(self.root, w.name):
            return [w.name, 'WRONG DIR']
        return [w.name]

    def call(self, op, a):
        wm = self.wm
        if op == 'create_ws':
            return self.ws(wm.create_workspace(a[0]))
        if op == 'delete_ws':
            wm.delete_workspace(a[0]); return []
        if op == 'copy_ws':
            return self.ws(wm.copy_workspace(a[0], a[1]))
        if op == 'rename_ws':
            return self.ws(wm.rename_workspace(a[0], a[1]))
        if op == 'set_cur':
            return self.ws(wm.set_current_workspace_name(a[0]))
        if op == 'get_cur':
            return self.ws(wm.get_current_workspace())
        if op == 'ws_names':
            return lst(wm.get_workspace_names())
        if op == 'ws_exists':
            return ['yes' if wm.workspace_exists(a[0]) else 'no']
        if op == 'delete_all':
            wm.delete_all_workspaces(); return []
        if op == 'create_cfg':
            wm.create_config(a[0], a[1], cryosat=(a[2] == 'cryosat')); return []
        if op == 'delete_cfg':
            wm.delete_config(a[0], a[1]); return []
        if op == 'copy_cfg':
            wm.copy_config(a[0], a[1], a[2]); return []
        if op == 'rename_cfg':
            wm.rename_config(a[0], a[1], a[2]); return []
        if op == 'set_cur_cfg':
            wm.set_current_config_name(a[0], a[1]); return []
        if op == 'get_cur_cfg':
            n = wm.get_current_config_name(a[0])
            return [] if n is None else [n]
        if op == 'cfg_names':
            return lst(wm.get_config_names(a[0]))
        if op == 'cfg_exists':
            return ['yes' if wm.config_exists(a[0], a[1]) else 'no']
        if op == 'add_inputs':
            wm.add_inputs(a[0], [self.src.path(f, c) for f, c in a[1]], self.null); return []
        if op == 'remove_inputs':
            wm.remove_inputs(a[0], a[1], self.null); return []
        if op == 'input_names':
            return lst(wm.get_input_names(a[0], pattern=self.pat(a[1])))
        if op == 'input_paths':
            ps = lst(wm.get_input_paths(a[0]))
            d = os.path.join(self.root, a[0], 'inputs')
            return [os.path.basename(p) if os.path.dirname(p) == d else 'WRONG DIR ' + p for p in ps]
        if op == 'output_names':
            return lst(wm.get_output_names(a[0], a[1], pattern=self.pat(a[2])))
        if op == 'remove_outputs':
            wm.remove_outputs(a[0], a[1]); return []
        if op == 'new_notebook':
            # a[1] is the expected base name: inspect-<product> or compare-<product>-<product>
            p = ['/data/' + x for x in a[2]]
            if len(p) == 1:
                wm.inspect_l1b_product(a[0], p[0])
            else:
                wm.compare_l1b_products(a[0], p[0], p[1])
            return []
        if op == 'notebook_names':
            return lst(wm.get_notebook_names(a[0]))
        raise vlib.MachineryError('unknown op ' + op)

    def pat(self, p):
        # one pattern can be given as a string or as a list
        self.npat = getattr(self, 'npat', 0) + 1
        if not p:
            return None if self.npat % 3 else []
        return p[0] if len(p) == 1 and self.npat % 3 else tuple(p) if self.npat % 2 else list(p)

    def env(self, op, a):
        p = os.path.join(self.root, *a[0])
        if op == 'env_write':
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as fp:
                fp.write('content of %s' % a[1])
        elif op == 'env_mkdir':
            os.makedirs(p, exist_ok=True)
        elif op == 'env_rm':
            import shutil
            shutil.rmtree(p) if os.path.isdir(p) else os.path.exists(p) and os.remove(p)

    def step(self, o):
        from dedop.ui.exception import WorkspaceError
        op, a = o['op'], o['a']
        rec = {'op': op, 'a': model_args(op, a)}
        if op.startswith('env_'):
            self.env(op, a)
            rec.update(res='ok', ret=[])
        else:
            try:
                with guarded(), contextlib.redirect_stdout(io.StringIO()):
                    ret = self.call(op, a)
                rec.update(res='ok', ret=[str(x) for x in ret])
            except WorkspaceError as e:
                rec.update(res='err', ret=[], _msg=str(e))
            except Exception as e:
                rec.update(res='exception %s' % type(e).__name__, ret=[], _msg=str(e))
        rec['tree'] = self.project()
        return rec


def model_args(op, a):
    if op == 'add_inputs':
        return [a[0], [[f, Sources.token(c)] for f, c in a[1]]]
    if op == 'env_write':
        return [a[0], Sources.token(a[1])]
    return a


def universe(steps, extra=()):
    u = set(extra)

    def walk(x):
        if isinstance(x, str):
            u.add(x)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
    for s in steps:
        walk(s['a'])
        walk(s['ret'])
        for p, _ in s['tree']:
            walk(p)
    return sorted(u)


def record(ctx, ops):
    d = Driver(ctx.scratch('store'))
    steps = [d.step(o) for o in ops]
    case = {'steps': steps, '_ops': ops}
    case.update(templates())
    case['names'] = universe(steps)
    import shutil
    shutil.rmtree(os.path.dirname(os.path.dirname(os.path.dirname(d.root))), ignore_errors=True)
    return case


# ---------------------------------------------------------------- generation
def tlc_behaviours(ctx, groups, num, depth, consts='Ws={"a","b","default"} Cf={"x","y"} Files={"f.nc","g.nc","p.txt"}', module='MCStore'):
    """behaviours of the specification, generated by TLC"""
    import json
    import re
    r = ctx.tlc(module, '''SPECIFICATION Spec
CONSTANTS %s Groups={%s} MaxDepth=999 GenDepth=%d
INVARIANT Gen
CONSTRAINT Bounded
ACTION_CONSTRAINT Lively
CHECK_DEADLOCK FALSE
''' % (consts, ','.join('"%s"' % g for g in groups), depth), simulate=(num, depth + 1), workers=1)
    seen = {}
    for m in re.finditer(r'^"TRACE (.*)"$', r.out, re.M):
        js = m.group(1).replace('\\"', '"').replace('\\\\', '\\')
        ops = json.loads(js)
        key = json.dumps(ops[:-1])
        seen.setdefault(key, ops)          # one continuation per behaviour
    if not seen:
        raise vlib.MachineryError('TLC generated no behaviours')
    ctx.extra['behaviours_generated_by_tlc'] = ctx.extra.get('behaviours_generated_by_tlc', 0) + len(seen)
    return list(seen.values())
