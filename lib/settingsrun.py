"""One session: a fresh process with its own home and working directory.  argv: script, results"""
import contextlib
import io
import json
import os
import stat
import shlex
import sys

import vlib


def typed(v, marks):
    if v is None:
        return {'t': 'none', 'tilde': False, 's': ''}
    if isinstance(v, bool):
        return {'t': 'bool', 'tilde': False, 's': str(v)}
    if isinstance(v, int):
        return {'t': 'int', 'tilde': False, 's': str(v)}
    if isinstance(v, str):
        if v in marks:
            return marks[v]
        return {'t': 'str', 'tilde': v.startswith('~'), 's': v[1:] if v.startswith('~') else v}
    return {'t': 'other', 'tilde': False, 's': type(v).__name__}


def plain(v):
    if v['t'] == 'none':
        return None
    if v['t'] == 'int':
        return int(v['s'])
    if v['t'] == 'bool':
        return v['s'] == 'True'
    return ('~' if v['tilde'] else '') + v['s']


def main():
    with open(sys.argv[1]) as fp:
        script = json.load(fp)
    sys.prefix = script['prefix']
    os.chdir(script['cwd'])
    log = script['log']
    out = []

    def attempt(fn):
        buf = io.StringIO()
        res = 'ok'
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf), vlib.limited():
                fn()
        except SystemExit as e:
            res = 'exit %s' % e.code
        except BaseException as e:
            res = 'error ' + type(e).__name__
        return res, buf.getvalue()

    def calls():
        r = []
        if os.path.exists(log):
            with open(log) as fp:
                for line in fp:
                    c = json.loads(line)
                    c['args'] = [word(a) for a in c['args']]
                    r.append(c)
            os.remove(log)
        return r

    def word(a):
        """a script that is called is seen by its last line"""
        if os.path.isabs(a) and os.path.isfile(a) and a.startswith(os.path.join(script['home'], '.dedop', 'temp')):
            with open(a) as fp:
                last = fp.read().rstrip('\n').split('\n')[-1]
            return ('script ' if os.stat(a).st_mode & stat.S_IXUSR else 'notexecutable ') + ' '.join(shlex.split(last))
        return a

    marks = script['marks']
    import importlib
    config = importlib.import_module('dedop.util.config')
    from dedop.ui.workspace_manager import WorkspaceManager
    ran = []
    import builtins
    builtins.verif_ran = ran
    for st in script['steps']:
        st = dict(st)
        op = st['op']
        if op == 'session':
            names = []
            st['res'], text = attempt(lambda: names.extend(config.get_config()))
            st['names'] = sorted(x for x in names if not x.startswith('_'))
            lines = [x for x in text.splitlines() if 'warning' in x.lower()]
            st['warned'] = sorted({w for w, p in (('user', '.dedop'), ('local', 'dedop-config.py')) for x in lines if p in x.split(':', 2)[1]})
        elif op in ('value', 'path'):
            got = []
            fn = config.get_config_value if op == 'value' else config.get_config_path
            d = plain(st['default'])
            st['res'], _ = attempt(lambda: got.append(fn(st['name'], d) if st['how'] == 'pos' else fn(st['name'], default=d) if st['how'] == 'key' else fn(st['name'])))
            st['got'] = typed(got[0], marks) if got else typed(None, marks)
        elif op == 'editor':
            st['res'], _ = attempt(lambda: WorkspaceManager.open_file(st['a']['file']))
            st['calls'] = calls()
        elif op == 'notebook':
            a = st['a']
            kw = {'notebook_path': a['path'][0]} if a['path'] else {}
            st['res'], _ = attempt(lambda: WorkspaceManager.launch_notebook(a['title'], a['dir'], **kw))
            st['calls'] = calls()
        elif op in ('workspace', 'run'):
            from dedop.cli import main as cli
            argv = ['workspace', 'add', st['name']] if op == 'workspace' else ['run', '-q', '-i', os.path.join(script['cwd'], 'in.nc')]
            rc = []
            st['res'], st['text'] = attempt(lambda: rc.append(cli.main(argv)))
            if rc and rc[0]:
                st['res'] = 'status %s' % rc[0]
            if op == 'workspace':
                st['dirs'] = [r for r, ds, fs in os.walk(script['root']) if st['name'] in ds]
            else:
                st['ran'] = {'t': 'factory', 'tilde': False, 's': ran[-1]} if ran else typed(None, {})
                del ran[:]
        out.append(st)
    with open(sys.argv[2], 'w') as fp:
        json.dump(out, fp)


main()
