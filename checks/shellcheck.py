"""shared by the checks of the command-line shell"""
import shellh
import storeh
from checks import storecheck as sc
from shellh import cmd

WS = ['a', 'b', 'default', 'a_1', 'a_1_2', 'b_2', 'ws 1', 'X']
CF = ['x', 'y', 'default', 'x_copy', 'x_2', 'y_copy_2', 'c 1', 'X']
ANSWERS = ['-', '-', '-', '', 'yes', 'YES', 'no', 'n', 'y', 'nope', ' yes ', 'yess']
PRODUCTS = ['f.nc', 'g.nc', 'L1A_01.nc', 'p.txt', 'missing.nc', 'ext/p1.nc', 'ext/p2.nc', "ext/it's.nc", 'ext/gone.nc', 'ext/a b.nc']


MC = '''SPECIFICATION Spec
CONSTANTS Ws={%s} Cf={%s} Groups={%s} MaxDepth=%d GenDepth=0
CONSTRAINT Bounded
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT WellFormed CurrentValid SomeCurrent
PROPERTY FailedKeeps DeclinedKeeps OthersKept NothingLost RunOnce NotebooksKept
'''


def q(xs):
    return ','.join('"%s"' % x for x in xs)


def model(ctx, groups, depth, ws=('a', 'default'), cf=('x', 'default')):
    return ctx.model_check('MCShell', MC % (q(ws), q(cf), q(groups), depth), workers=8)


def behaviours(ctx, groups, num, depth):
    """histories generated by TLC from the specification"""
    return storeh.tlc_behaviours(ctx, groups, num, depth, consts='Ws={"a","b","default"} Cf={"x","default"}', module='MCShell')


class Gen:
    """command histories; keeps a rough idea of what exists so that most commands find their target"""

    def __init__(self, rng, weights):
        self.rng, self.weights = rng, weights
        self.ws = {}
        few = rng.random() < .6
        self.WS = rng.sample(WS, 3) if few else WS
        self.CF = rng.sample(CF, 3) if few else CF

    def w(self, p_given=.5, p_wild=.12):
        r = self.rng.random()
        if r > p_given:
            return ''
        if self.ws and r > p_given * p_wild:
            return self.rng.choice(sorted(self.ws))
        return self.rng.choice(self.WS)

    def c(self, w, p_given=.6, p_wild=.12):
        r = self.rng.random()
        if r > p_given:
            return ''
        known = sorted(set().union(*self.ws.values())) if self.ws else []
        if w in self.ws and self.ws[w]:
            known = sorted(self.ws[w])
        if known and r > p_given * p_wild:
            return self.rng.choice(known)
        return self.rng.choice(self.CF)

    def new(self, pool, known):
        return self.rng.choice(sorted(known)) if known and self.rng.random() < .4 else self.rng.choice(pool)

    def op(self):
        rng = self.rng
        k = rng.choices([x for x, _ in self.weights], [v for _, v in self.weights])[0]
        if k == 'fill':
            if not self.ws:
                return []
            w = rng.choice(sorted(self.ws))
            return sc.fill(rng, w, sorted(self.ws[w])[:2])
        if k == 'pile':          # the same new name again and again
            w = self.w(.7)
            if rng.random() < .4:
                n = rng.choice(self.WS)
                return [cmd('sh_ws_cp', w=w, n=n if w else '') for _ in range(rng.randint(2, 4))]
            c, n = self.c(w, .7), rng.choice(self.CF)
            return [cmd('sh_cf_cp', w=w, c=c, n=n if c else '') for _ in range(rng.randint(2, 4))] + \
                [cmd('sh_cf_rn', w=w, c=c, n=n)] * rng.randint(0, 1)
        if k == 'stock':         # many files, then remove or list some
            w = self.w(.7)
            if w:
                self.ws.setdefault(w, set())
            return [cmd('sh_in_add', w=w, p=[[d, '*'] for d in rng.choice([['s1'], ['s2'], ['s1', 's2'], ['s2', 's1']])]),
                    cmd('sh_in_ls', w=w, x=rng.choice([[], [], ['L1A_*'], ['?.nc']])),
                    cmd('sh_in_rm', w=w, yes=rng.choice(ANSWERS), x=rng.choice([[], [], ['L1A_*'], ['f.nc', 'g.nc'], ['*0?.nc', '?.nc']]))]
        if k == 'products':
            if not self.ws:
                return []
            w = rng.choice(sorted(self.ws))
            c = rng.choice(sorted(self.ws[w]) or self.CF)
            return [{'op': 'env_write', 'a': [[w, 'configs', c, 'outputs', f], 'd8']} for f in rng.sample(sc.FILES, rng.randint(1, 4))] + \
                [cmd('sh_out_ls', w=w, c=c, x=rng.choice([[], ['*.nc'], ['f*']])), cmd('sh_out_open', w=w, c=c),
                 cmd('sh_out_clean', w=w, c=c, yes=rng.choice(ANSWERS))]
        if k == 'nbfile':
            w = rng.choice(sorted(self.ws)) if self.ws else 'a'
            if not self.ws:
                return []
            return [{'op': 'env_write', 'a': [[w, 'notebooks', '%s-%s-%d.ipynb' % (rng.choice(['inspect', 'inspect', 'compare-f.nc']),
                                                                               rng.choice(['f.nc', 'p1.nc', 'g.nc']), rng.randint(1, 4))], 'd9']}]
        if k == 'nbrm':
            w = rng.choice(sorted(self.ws)) if self.ws else None
            if w is None:
                return []
            return [{'op': 'env_rm', 'a': [[w, 'notebooks', 'inspect-%s-%d.ipynb' % (rng.choice(['f.nc', 'p1.nc']), rng.randint(1, 2))]]}]
        if k == 'nbs':           # several notebooks of a product, some of them go, another one
            w = rng.choice(sorted(self.ws)) if self.ws else None
            if w is None:
                return []
            f, g = rng.choice(['ext/p1.nc', 'ext/p2.nc', "ext/it's.nc"]), rng.choice(['ext/p1.nc', 'ext/p2.nc'])
            both = rng.random() < .3
            make = cmd('sh_out_cmp', w=w, c='', n=f, n2=g) if both else cmd('sh_out_ins', w=w, c='', n=f)
            name = 'compare-%s-%s-%%d.ipynb' % (f[4:], g[4:]) if both else 'inspect-%s-%%d.ipynb' % f[4:]
            n = rng.randint(1, 4)
            gone = rng.sample(range(1, n + 1), rng.randint(0, min(n, 2)))
            return [make] * n + [{'op': 'env_rm', 'a': [[w, 'notebooks', name % i]]} for i in gone] + [make] * rng.randint(1, 2)
        op = 'sh_' + k
        yes = rng.choice(ANSWERS)
        if k == 'ws_add':
            n = self.new(self.WS, self.ws)
            if rng.random() < .04:
                n = rng.choice(['..', 'a/b', '.'])
            else:
                self.ws.setdefault(n, set())
            return [cmd(op, n=n)]
        if k in ('ws_rm', 'ws_cur'):
            return [cmd(op, w=self.w(.6), yes=yes)]
        if k in ('ws_cp', 'ws_rn'):
            w = self.w(.6)
            n = self.new(self.WS, self.ws) if (k == 'ws_rn' or (w and rng.random() < .7)) else ''
            src = w or (sorted(self.ws)[0] if self.ws else 'a')
            for m in ([n] if n else [src + '_1']):
                self.ws.setdefault(m, set(self.ws.get(src, ())))
            return [cmd(op, w=w, n=n)]
        if k in ('ws_ls', 'status'):
            return [cmd(op)]
        w = self.w()
        if k == 'cf_add':
            c = self.new(self.CF, set().union(*self.ws.values()) if self.ws else set())
            for v in ([w] if w in self.ws else self.ws):
                self.ws[v].add(c)
            return [cmd(op, w=w, c=c, f=['cryosat'] if rng.random() < .3 else [])]
        if k in ('cf_rm', 'cf_cur', 'cf_ed', 'cf_info'):
            return [cmd(op, w=w, c=self.c(w), yes=yes)]
        if k in ('cf_cp', 'cf_rn'):
            c = self.c(w)
            n = self.new(self.CF, self.ws.get(w, ())) if (k == 'cf_rn' or (c and rng.random() < .7)) else ''
            if n:
                for v in ([w] if w in self.ws else self.ws):
                    self.ws[v].add(n)
            return [cmd(op, w=w, c=c, n=n)]
        if k == 'cf_ls':
            return [cmd(op, w=w)]
        if k == 'in_add':
            x = [[rng.choice(['s1', 's2']), rng.choice(['*.nc', 'L1A_*', 'f.nc', 'L1A_01.nc', 'L1A_0[12].nc', '?.nc', 'nothing*',
                                                        'missing.nc', 'p.txt', '*', 'a b.nc'])] for _ in range(rng.choice([1, 1, 2, 3]))]
            if not w and not self.ws:
                self.ws['default'] = set()
            return [cmd(op, w=w, p=x)]
        if k in ('in_rm', 'in_ls'):
            n = rng.choice([0, 1, 1, 2] if k == 'in_rm' else [0, 1])
            return [cmd(op, w=w, x=[sc.pattern(rng, sc.FILES[:6]).lstrip('-') or '*' for _ in range(n)], yes=yes)]
        c = self.c(w, .4)
        if k in ('out_clean', 'out_open'):
            return [cmd(op, w=w, c=c, yes=yes)]
        if k == 'out_ls':
            return [cmd(op, w=w, c=c, x=[sc.pattern(rng, sc.FILES[:6]).lstrip('-') or '*'] if rng.random() < .6 else [])]
        if k == 'out_ins':
            return [cmd(op, w=w, c=c, n=rng.choice(PRODUCTS))]
        if k == 'out_cmp':
            return [cmd(op, w=w, c=c, n=rng.choice(PRODUCTS), n2=rng.choice([''] + PRODUCTS),
                        w2=self.w(.3), c2=self.c('', .3))]
        if k == 'run':
            f = [x for x, p in (('all', .35), ('skip', .4)) if rng.random() < p]
            x = [rng.choice(['ext/p1.nc', 'ext/p2.nc', 'ext/gone.nc', 'ext/bad.nc', 'ext/p1.nc', 'ext/a b.nc'])
                 for _ in range(rng.choice([0, 0, 1, 2, 3]))]
            return [cmd(op, w=w, c=c if 'all' not in f or rng.random() < .15 else '', x=x, f=f,
                        n=rng.choice(['', '', 'ext/out']))]
        raise ValueError(k)

    def history(self, length):
        ops = []
        rng = self.rng
        if rng.random() < .8:
            for w in rng.sample(self.WS, rng.randint(1, 2)):
                self.ws[w] = set()
                ops.append(cmd('sh_ws_add', n=w))
                for c in rng.sample(self.CF, rng.randint(0, 2)):
                    self.ws[w].add(c)
                    ops.append(cmd('sh_cf_add', w=w, c=c))
        while len(ops) < length:
            ops += self.op()
        return ops


def run_cases(ctx, oplists):
    cases = [shellh.record(ctx, ops) for ops in oplists]
    rejected = ctx.judge('ShellTrace', cases, workers=8)
    ctx.report(cases, rejected)
    n, ok = 0, 0
    for c in cases:
        for s in c['_steps']:
            if s['op'].startswith('sh_'):
                n += 1
                ok += s['res'] == 'ok'
    ctx.extra['commands_run'] = n
    ctx.extra['commands_succeeded'] = ok
    for c in cases[:1] + cases[-1:]:
        ctx.sample([[' '.join(s.get('_argv', [s['op']])), s['res'], s['ret']] for s in c['_steps']][:10])
    return cases
