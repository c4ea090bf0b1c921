"""shared by the checks of the workspace store"""
import storeh

MC = '''SPECIFICATION Spec
CONSTANTS Ws={"a","b","default"} Cf={"x","y"} Files={%s} Groups={%s} MaxDepth=%d GenDepth=0
CONSTRAINT Bounded
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT WellFormed
PROPERTY FailedOpKeepsStore FailedAddOnlyAdds ReadsKeepStore OthersUntouched CopyIsExact RenameMoves ConfigFrame
PROPERTY CreateNeverOverwrites NotebooksKept OutputsOnly
'''


def model(ctx, groups, depth, files='"f.nc","g.nc","p.txt"'):
    return ctx.model_check('MCStore', MC % (files, ','.join('"%s"' % g for g in groups), depth), workers=8)


WS = ['a', 'b', 'default', 'ws 1', 'a.b', 'A', 'a_1', 'x y-z']
BADWS = ['', '..', '.', 'a/b', '../p']
CF = ['x', 'y', 'default', 'c 1', 'x_copy', 'x.1']
FILES = ['f.nc', 'g.nc', 'L1A_01.nc', 'L1A_02.nc', 'p.txt', 'z.NC', 'nc', 'a b.nc', 'f.nc.bak', 'L1A_[1].nc',
         'L1A_1.nc', 'L1A_10.nc', 'L1A_1', 'F.nc', 'ff.nc', '.nc', '.h.nc', 'f.x.nc', 'f,g.nc', 'f.nc.nc']
PATTERNS = ['*', '*.nc', 'f*', '?.nc', 'L1A_*', '*0[12].nc', '*0[!2].nc', 'nomatch*', 'L1A_01.nc', '*_0?.nc', '*a*']


def pattern(rng, files):
    """a pattern close to an existing name, or a fixed one"""
    r = rng.random()
    if r < .35:
        return rng.choice(PATTERNS)
    f = rng.choice(files)
    k = rng.randint(0, len(f))
    if r < .45:
        return f[:k] or f
    if r < .55:
        return f[:k] + '*'
    if r < .62:
        return '*' + f[k:]
    if r < .70:
        return f[:k] + '*' + f[rng.randint(k, len(f)):]
    if r < .78:
        return f[:k] + '?' + f[k + 1:]
    if r < .84:
        return f[:k] + '[' + rng.choice(['!', '']) + rng.choice('fgL1A0_') + rng.choice('nc2.') + ']' + f[k + 1:]
    if r < .89:
        return f.swapcase()
    if r < .93:
        return f + ',' + rng.choice(files)
    return rng.choice([f, f.replace('.', '?'), f + '?', '*' + f + '*', f[:-3], '.' + f, '^' + f, f.replace('.nc', '.+')])


def fill(rng, w, cfgs=('x', 'y')):
    """content put into a workspace behind the store's back: products, inputs, notebooks, notes of the user"""
    out = []
    for _ in range(rng.randint(0, 3)):
        out.append({'op': 'env_write', 'a': [[w, 'inputs', rng.choice(FILES)], 'd%d' % rng.randint(1, 3)]})
    for c in cfgs:
        if rng.random() < .6:
            out.append({'op': 'env_write', 'a': [[w, 'configs', c, rng.choice(['CHD.json', 'CNF.json', 'CST.json'])], 'd7']})
            if rng.random() < .5:
                out.append({'op': 'env_write', 'a': [[w, 'configs', c, 'outputs', rng.choice(FILES)], 'd8']})
    if rng.random() < .4:
        out.append({'op': 'env_write', 'a': [[w, 'notebooks', 'n-1.ipynb'], 'd9']})
    if rng.random() < .3:
        out.append({'op': 'env_write', 'a': [[w, 'README'], 'd6']})
    if rng.random() < .3:
        out.append({'op': 'env_mkdir', 'a': [[w, 'empty', 'deep']]})
    return out


def run_cases(ctx, oplists):
    cases = [storeh.record(ctx, ops) for ops in oplists]
    rejected = ctx.judge('StoreTrace', cases)
    ctx.report(cases, rejected)
    for c in cases[:1] + cases[-1:]:
        ctx.sample([[s['op'], s['a'], s['res'], s['ret']] for s in c['steps']][:12])
    return cases
