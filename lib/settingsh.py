"""Generates sessions with settings files and runs them in processes of their own."""
import json
import os
import shutil
import subprocess
import sys

RECORD = '''#!/bin/sh
exec %s - "$0" "$@" <<'EOF'
import json, os, sys
p = os.path.basename(sys.argv[1])
with open(%r, 'a') as fp:
    fp.write(json.dumps({'prog': p, 'args': sys.argv[2:]}) + '\\n')
sys.exit(int(p[4:5]) if p.startswith('tool') else 0)
EOF
'''
NAMES = ['workspaces_dir', 'launch_editor_command', 'launch_notebook_command', 'processor_factory', 'own_value', 'other']
BROKEN = ['def f(:\n', 'raise ValueError("no")\n', 'x = undefined_name\n', 'import no_such_module\n', '1 / 0\n', 'if True:\nx = 1\n']


def text(s):
    return {'t': 'str', 'tilde': s.startswith('~'), 's': s[1:] if s.startswith('~') else s}


NONE = {'t': 'none', 'tilde': False, 's': ''}


class Case:
    def __init__(self, rng, d):
        self.rng, self.d = rng, d
        self.home = os.path.join(d, 'home')
        self.n = 0
        self.steps = []
        self.user = self.local = None
        self.bin = os.path.join(d, 'bin')
        self.prefix = os.path.join(d, rng.choice(['prefix', 'prefix']))
        self.log = os.path.join(d, 'log')
        os.mkdir(self.bin)
        os.makedirs(os.path.join(self.prefix, 'bin'))
        self.program(os.path.join(self.prefix, 'bin', 'jupyter'))
        for k in (0, 3):
            for w in ('home', 'local'):
                self.program(os.path.join(self.bin, 'tool%d%s' % (k, w)))

    def program(self, path):
        with open(path, 'w') as fp:
            fp.write(RECORD % (sys.executable, self.log))
        os.chmod(path, 0o755)

    def value(self, name, who):
        """(value, python source)"""
        r = self.rng
        if name == 'processor_factory':
            return {'t': 'factory', 'tilde': False, 's': who}, \
                ('class _P:\n    def process(self, input_file, monitor=None, **kw):\n        return None\n'
                 'def processor_factory(*a, _p=_P, **kw):\n    import builtins\n    builtins.verif_ran.append(%r)\n    return _p()\n' % who)
        if name.startswith('launch'):
            x = r.random()
            if x < .2:
                v = r.choice([5, '   ', True, '', None, 0])
                t = {'t': type(v).__name__, 'tilde': False, 's': str(v)} if v is not None else NONE
                return t, '%s = %r\n' % (name, v)
            ph = ['{file}'] if 'editor' in name else ['{title}', '{command}', '{command_file}', '{prefix}']
            words = [r.choice(ph + ['-x', 'word', who]) for _ in range(r.randint(0, 4))]
            code = r.choice([0, 0, 0, 3])
            prog = 'tool%d%s' % (code, who)
            src = ' '.join([prog] + [w if w == '{command}' else '"%s"' % w for w in words])
            src = r.choice(['', '', ' ']) + src + r.choice(['', '', '  '])
            self.marks[src] = {'t': 'cmd', 'prog': prog, 'words': words, 'code': code}
            return self.marks[src], '%s = %r\n' % (name, src)
        if name == 'workspaces_dir':
            p = r.choice(['~/' + who + '-ws', os.path.join(self.d, 'abs-' + who), '~/.dedop/elsewhere', '~/a b'])
            return text(p), '%s = %r\n' % (name, p)
        v = r.choice(['~/x' + who, who, 'a b', r.randint(0, 9), True, None, '', '~' + '/q'])
        if v is None:
            return NONE, '%s = None\n' % name
        if isinstance(v, str):
            return text(v), '%s = %r\n' % (name, v)
        return {'t': type(v).__name__, 'tilde': False, 's': str(v)}, '%s = %r\n' % (name, v)

    def content(self, who, st):
        r = self.rng
        sets, src = [], []
        for n in NAMES:
            if r.random() < .45:
                v, s = self.value(n, who)
                if r.random() < .1 and n == 'own_value':
                    src.append('%s = "overwritten below"\n' % n)
                sets.append({'n': n, 'v': v})
                src.append(s)
        if st == 'broken':
            bad = r.choice(BROKEN)
            k = len(src) if r.random() < .5 else r.randint(0, len(src))
            src.insert(k, bad)
        return sets, '# settings\n' + ''.join(src)

    def put(self, who):
        """the user edits a file"""
        r = self.rng
        if who == 'home':
            shutil.rmtree(self.home, ignore_errors=True)
            st = r.choice(['ok'] * 5 + ['broken'] * 2 + ['absent', 'absent', 'absentdir', 'nowhere', 'blocked', 'dir'])
            f = os.path.join(self.home, '.dedop', 'config.py')
            if st != 'nowhere':
                os.mkdir(self.home)
            if st == 'blocked':
                open(os.path.join(self.home, '.dedop'), 'w').close()
            elif st not in ('absent', 'nowhere'):
                os.mkdir(os.path.dirname(f))
        else:
            st = r.choice(['ok'] * 4 + ['broken', 'absent', 'absent', 'dir'])
            f = os.path.join(self.cwd, 'dedop-config.py')
        sets = []
        if st in ('ok', 'broken'):
            sets, src = self.content(who, st)
            with open(f, 'w') as fp:
                fp.write(src)
        elif st == 'dir':
            os.mkdir(f)
        st = {'blocked': 'nowhere', 'absentdir': 'absent'}.get(st, st)
        return {'st': st, 'sets': sets}

    def state(self, f):
        if os.path.isdir(f):
            return 'dir', b''
        if not os.path.exists(f):
            return 'absent', b''
        with open(f, 'rb') as fp:
            return 'ok', fp.read()

    def session(self):
        r = self.rng
        self.n += 1
        if self.user is None:
            self.marks = {}
        self.cwd = os.path.join(self.d, 'cwd%d' % self.n)
        os.mkdir(self.cwd)
        with open(os.path.join(self.cwd, 'in.nc'), 'w') as fp:
            fp.write('not a product')
        if self.user is None or r.random() < .5:
            self.user = self.put('home')
        self.local = self.put('local')
        progs = [p for p in ('gnome-terminal', 'xterm', 'xdg-open', 'open') if r.random() < .5]
        pdir = os.path.join(self.d, 'progs%d' % self.n)
        os.mkdir(pdir)
        for p in progs:
            self.program(os.path.join(pdir, p))
        env = {'home': self.home, 'prefix': self.prefix, 'progs': progs}
        steps = [{'op': 'session', 'user': self.user, 'local': self.local, 'env': env}]
        usable = self.user['st'] not in ('nowhere',) and os.path.isdir(self.home) and not os.path.isfile(os.path.join(self.home, '.dedop'))
        for k in range(r.randint(4, 10)):
            x = r.random()
            if x < .45:
                n = r.choice(NAMES[:3] + ['own_value', 'other', 'not_there'])
                how = r.choice(['pos', 'key', 'none'])
                d = NONE if how == 'none' else r.choice([NONE, text('dflt'), text('~/dflt'), {'t': 'int', 'tilde': False, 's': '7'}])
                op = r.choice(['value', 'path']) if not n.startswith('launch') else 'value'
                steps.append({'op': op, 'name': n, 'default': d, 'how': how})
            elif x < .6:
                steps.append({'op': 'editor', 'a': self.what(r)})
            elif x < .78 and usable:
                steps.append({'op': 'notebook', 'a': self.what(r)})
            elif x < .92 and usable:
                steps.append({'op': 'workspace', 'name': 'w%d-%d' % (self.n, k)})
            elif usable:
                steps.append({'op': 'run'})
        script = {'home': self.home, 'cwd': self.cwd, 'prefix': self.prefix, 'log': self.log, 'root': self.d, 'marks': self.marks, 'steps': steps}
        sp, rp = os.path.join(self.d, 'script.json'), os.path.join(self.d, 'result.json')
        with open(sp, 'w') as fp:
            json.dump(script, fp)
        if os.path.exists(rp):
            os.remove(rp)
        uf, lf = os.path.join(self.home, '.dedop', 'config.py'), os.path.join(self.cwd, 'dedop-config.py')
        before = [self.state(uf), self.state(lf)]
        e = dict(os.environ, HOME=self.home, PATH=pdir + ':' + self.bin + ':/usr/bin:/bin')
        p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(os.path.dirname(__file__), 'settingsrun.py'), sp, rp],
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        if os.path.exists(rp):
            with open(rp) as fp:
                got = json.load(fp)
        else:
            got = [dict(steps[0], res='process ended: ' + p.stdout.decode('utf-8', 'replace')[-300:], warned=[], names=[])]
        after = [self.state(uf), self.state(lf)]
        s = got[0]
        st = after[0][0]
        s['after'] = 'nowhere' if self.user['st'] == 'nowhere' and st == 'absent' else 'broken' if self.user['st'] == 'broken' and st == 'ok' else st
        s['kept'] = all(b == a for b, a in zip(before, after) if b[0] != 'absent') and after[1] == before[1]
        self.steps += got
        if self.user['st'] == 'absent':
            self.user = {'st': 'ok', 'sets': []}

    def what(self, r):
        d = os.path.join(self.d, r.choice(['nb', 'nb dir']))
        return {'file': os.path.join(self.d, r.choice(['f.json', 'a file.nc', 'x$1' if False else 'y.nc'])), 'title': r.choice(['T', 'some title']), 'dir': d,
                'path': r.choice([[], [os.path.join(d, 'n 1.ipynb')], [os.path.join(d, 'n2.ipynb')]])}

    def run(self, sessions):
        for _ in range(sessions):
            self.session()
        return {'steps': self.steps}
