"""Drives the real command-line shell and records histories for ShellTrace."""
import ast
import builtins
import contextlib
import io
import json
import os
import re
import shutil
import subprocess
import sys

import storeh
import vlib
from guard import guarded

FIELDS = dict(w='', c='', n='', x=[], p=[], yes='-', f=[], w2='', c2='', n2='')
ALIAS = {'sh_ws': ('workspace', 'w'), 'sh_cf': ('config', 'c'), 'sh_in': ('input', 'i'), 'sh_out': ('output', 'o')}
SUB = {'rm': ('remove', 'rm'), 'cp': ('copy', 'cp'), 'rn': ('rename', 'rn'), 'cur': ('current', 'cur'), 'ls': ('list', 'ls'),
       'ed': ('edit', 'ed'), 'info': ('info', 'i'), 'clean': ('clean', 'cl'), 'open': ('open', 'op'), 'ins': ('inspect', 'ins'),
       'cmp': ('compare', 'cmp'), 'add': ('add', 'add')}


def cmd(op, **kw):
    o = dict(FIELDS, op=op, a=[])
    o.update(kw)
    return o


def nb_token(path, drv):
    """a notebook made by the shell, by the products it is about"""
    try:
        with open(path, encoding='utf-8') as fp:
            nb = json.load(fp)
        text = '\n'.join(''.join(c.get('source', [])) for c in nb['cells'] if c.get('cell_type') == 'code')
        m = re.findall(r'(?:inspect|compare)_l1b_products?\((.*?)\)\s*$', text, re.S | re.M)
        if len(m) != 1:
            return 'NB without product'
        args = ast.literal_eval('(' + m[0] + ',)')
        return 'NB:' + '|'.join(drv.label(a) for a in args)
    except Exception as e:
        return 'BROKEN NOTEBOOK %s' % type(e).__name__


class Shell(storeh.Driver):
    SRC = {'s1': {'L1A_01.nc': 'd1', 'L1A_02.nc': 'd2', 'f.nc': 'd3', 'bad.nc': 'd1', 'a b.nc': 'd2'},
           's2': {'L1A_01.nc': 'd4', 'g.nc': 'd5', 'p.txt': 'd6', 'L1A_10.nc': 'd4'}}
    EXT = ["p1.nc", "p2.nc", "it's.nc", 'a b.nc']

    def __init__(self, scratch):
        super().__init__(scratch)
        self.opened, self.launched, self.jobs = [], [], []
        self.ext = os.path.join(scratch, 'ext')
        os.makedirs(self.ext)
        for f in self.EXT:
            open(os.path.join(self.ext, f), 'w').close()
        self.srcdir = os.path.join(scratch, 'l1a')
        for d, fs in self.SRC.items():
            os.makedirs(os.path.join(self.srcdir, d))
            for f, c in fs.items():
                with open(os.path.join(self.srcdir, d, f), 'w') as fp:
                    fp.write('content of %s' % c)
        drv = self
        self.wm.open_file = lambda path: drv.opened.append(path)

        def launch(title, notebook_dir, notebook_path=None):
            drv.launched.append(notebook_path or notebook_dir)
        self.wm.launch_notebook = launch

    def const(self):
        return {'src': [[d, f, storeh.Sources.token(c)] for d in sorted(self.SRC) for f, c in sorted(self.SRC[d].items())],
                'ext': self.EXT}

    def label(self, p):
        p = os.path.abspath(p)
        for base, pre in ((self.root, ''), (self.ext, 'ext/')):
            if p.startswith(base + os.sep):
                return pre + os.path.relpath(p, base)
        return p

    def path(self, f):
        return os.path.join(self.ext, f[4:]) if f.startswith('ext/') else f

    def project(self):
        t = super().project()
        for e in t:
            if len(e[0]) == 3 and e[0][1] == 'notebooks' and re.match('(inspect|compare)-', e[0][2]) and e[1] != 'DIR':
                p = os.path.join(self.root, *e[0])
                with open(p, 'rb') as fp:
                    if not fp.read(10).startswith(b'content of'):
                        e[1] = nb_token(p, self)
        return t

    # ------------------------------------------------------------------
    def argv(self, o, pick):
        op = o['op']
        opt = []
        if op in ('sh_run', 'sh_status'):
            a = [pick(('run', 'r') if op == 'sh_run' else ('status', 's'))]
            if op == 'sh_status':
                return a
            if o['w']:
                opt += [[pick(('-w', '--workspace')), o['w']]]
            if o['c']:
                opt += [[pick(('-c', '--config')), o['c']]]
            if o['n']:
                opt += [['-o', self.path(o['n'])]]
            if 'all' in o['f']:
                opt += [[pick(('-a', '--all-configs'))]]
            if 'skip' in o['f']:
                opt += [[pick(('-s', '--skip-l1bs'))]]
            if pick((True, False)):
                opt += [['-q']]
            if o['x']:
                opt += [['-i'] + [self.path(x) for x in o['x']]]
            return a + sum(opt, [])
        g, s = op.rsplit('_', 1)
        a = [pick(ALIAS[g]), pick(SUB[s])]
        pos = []
        if g == 'sh_ws':
            if s == 'add':
                pos = [o['n']]
            elif s in ('cp', 'rn'):
                pos = [x for x in (o['w'], o['n']) if x]
            elif s != 'ls':
                pos = [o['w']] if o['w'] else []
            if s == 'rm' and o['yes'] == '-':
                opt += [[pick(('-y', '--yes'))]]
        elif g == 'sh_cf':
            if o['w']:
                opt += [[pick(('-w', '--workspace')), o['w']]]
            if s == 'add':
                pos = [o['c']]
                if 'cryosat' in o['f']:
                    opt += [['--cryosat-adapted']]
            elif s in ('cp', 'rn'):
                pos = [x for x in (o['c'], o['n']) if x]
            elif s != 'ls':
                pos = [o['c']] if o['c'] else []
            if s == 'rm' and o['yes'] == '-':
                opt += [[pick(('-y', '--yes'))]]
        elif g == 'sh_in':
            if o['w']:
                opt += [[pick(('-w', '--workspace')), o['w']]]
            if s == 'add':
                pos = [os.path.join(self.srcdir, d, p) for d, p in o['p']]
                if pick((True, False)):
                    opt += [['-q']]
            else:
                pos = list(o['x'])
                if s == 'rm' and o['yes'] == '-':
                    opt += [[pick(('-q', '--quiet'))]]
        else:
            for k, fl in (('w', ('-w', '--workspace')), ('c', ('-c', '--config')), ('w2', ('-W', '--workspace-2')),
                          ('c2', ('-C', '--config-2'))):
                if o[k] and (k in 'wc' or s == 'cmp'):
                    opt += [[pick(fl), o[k]]]
            if s == 'clean' and o['yes'] == '-':
                opt += [['-q']]
            if s == 'ls':
                pos = list(o['x'])
            if s in ('ins', 'cmp'):
                pos = [self.path(o['n'])] + ([self.path(o['n2'])] if s == 'cmp' and o['n2'] else [])
        return a + sum(opt, []) + pos

    def factory(self):
        from dedop.model.exception import ProcessorException
        drv = self

        class Proc:
            def __init__(self, name, cnf_file=None, cst_file=None, chd_file=None, output_dir='.', skip_l1bs=True):
                self.head = [name] + [drv.label(f) for f in (chd_file, cnf_file, cst_file)] + \
                            [drv.label(output_dir), 'skip' if skip_l1bs else 'l1bs']
                for f in (chd_file, cnf_file, cst_file):
                    if not os.path.isfile(f):
                        raise ProcessorException('no such file')

            def process(self, l1a_file, monitor=None):
                drv.jobs.append('|'.join(self.head + [drv.label(l1a_file)]))
                with monitor.starting('x', 2):
                    monitor.progress(1)
                    if 'bad' in os.path.basename(l1a_file):
                        raise ProcessorException('failed')
                    monitor.progress(1)
        return Proc

    def shell(self, o, pick):
        import dedop.cli.main as cli
        self.opened, self.launched, self.jobs = [], [], []
        argv = self.argv(o, pick)
        asked = []

        def answer(prompt=''):
            asked.append(prompt)
            return o['yes'] if o['yes'] != '-' else 'no'

        def check_call(c, *a, **kw):
            m = re.match(r'ls "(.*)"$', c) if isinstance(c, str) else None
            if not m or not os.path.isdir(m.group(1)):
                raise subprocess.CalledProcessError(2, c)
            return 0
        out, err = io.StringIO(), io.StringIO()
        saved = builtins.input, subprocess.check_call
        builtins.input, subprocess.check_call = answer, check_call
        try:
            with guarded(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                status = cli.main(argv, workspace_manager=self.wm, processor_factory=self.factory())
        finally:
            builtins.input, subprocess.check_call = saved
        text = out.getvalue()
        rec = {'res': 'ok' if status == 0 else 'err', 'ret': [], '_argv': argv, '_out': text[-1500:], '_err': err.getvalue()[-500:]}
        s = o['op'].rsplit('_', 1)[1]
        if s == 'run':
            rec['ret'] = self.jobs
        elif status == 0:
            if s == 'ls':
                rec['ret'] = re.findall(r'^ *\d+: (.*)$', text, re.M)
            elif s == 'cur':
                rec['ret'] = re.findall(r'^current .* is "(.*)"$', text, re.M)
            elif s == 'info':
                rec['ret'] = [m.strip() for m in re.findall(r'^current (?:workspace|DDP configuration): +(.*)$', text, re.M)]
            elif s in ('ed', 'open'):
                rec['ret'] = [self.label(p) for p in self.opened]
            elif s in ('ins', 'cmp'):
                rec['ret'] = [self.label(p) for p in self.launched]
            elif s == 'status':
                rec['ret'] = re.findall(r'^(?:workspace names|current workspace|current DDP configuration): +(.*)$', text, re.M)
        return rec

    def sstep(self, o, pick):
        if not o['op'].startswith('sh_'):
            rec = self.step(o)
            full = dict(FIELDS, **rec)
            return full
        rec = {k: o[k] for k in FIELDS}
        rec.update(op=o['op'], a=[])
        try:
            rec.update(self.shell(o, pick))
        except vlib.MachineryError:
            raise
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            rec.update(res='exception %s' % type(e).__name__, ret=[], _msg=str(e))
        rec['tree'] = self.project()
        return rec


def record(ctx, ops):
    scratch = ctx.scratch('shell')
    d = Shell(scratch)
    steps = [d.sstep(o, ctx.rng.choice) for o in ops]
    case = {'steps': [{k: v for k, v in s.items() if not k.startswith('_')} for s in steps], '_steps': [
        {k: v for k, v in s.items() if k != 'tree'} for s in steps]}
    case.update(storeh.templates())
    case.update(d.const())
    names = set(storeh.universe(steps))
    for s in steps:
        for k in ('w', 'c', 'n', 'w2', 'c2', 'n2'):
            names.add(s[k])
    names |= {x[1] for x in case['src']}
    case['names'] = sorted(names)
    shutil.rmtree(scratch, ignore_errors=True)
    return case
