"""C03: inputs and outputs of a workspace: exact copies, listed by pattern once and in order, removed precisely"""
import storeh
from checks import storecheck as sc


def ops_for(rng, length):
    wss = rng.sample(['a', 'b', 'default'], rng.randint(1, 2))
    cfs = ['x', 'y']
    ops = [{'op': 'env_mkdir', 'a': [[w]]} for w in wss]
    files = rng.sample(sc.FILES, rng.randint(3, len(sc.FILES)))

    def pats():
        r = rng.random()
        return [] if r < .2 else [sc.pattern(rng, files)] if r < .6 else [sc.pattern(rng, files) for _ in range(rng.randint(2, 3))]
    for _ in range(length):
        w = rng.choice(wss)
        c = rng.choice(cfs)
        k = rng.choice(['add_inputs'] * 3 + ['remove_inputs', 'input_names', 'input_names', 'input_paths', 'out', 'out', 'out',
                        'output_names', 'output_names', 'remove_outputs', 'in', 'dir'])
        if k == 'add_inputs':
            n = rng.randint(1, 4)
            ops.append({'op': k, 'a': [w, [[rng.choice(files), 'd%d' % rng.randint(1, 4) if rng.random() < .93 else '~none']
                                          for _ in range(n)]]})
        elif k == 'remove_inputs':
            ops.append({'op': k, 'a': [w, [rng.choice(files) for _ in range(rng.randint(0, 3))]]})
        elif k == 'input_names':
            ops.append({'op': k, 'a': [w, pats()]})
        elif k == 'input_paths':
            ops.append({'op': k, 'a': [w]})
        elif k == 'output_names':
            ops.append({'op': k, 'a': [w, c, pats()]})
        elif k == 'remove_outputs':
            ops.append({'op': k, 'a': [w, c]})
        elif k == 'out':
            ops.append({'op': 'env_write', 'a': [[w, 'configs', c, 'outputs', rng.choice(files)], 'd5']})
        elif k == 'in':
            ops.append({'op': 'env_write', 'a': [[w, 'inputs', rng.choice(files)], 'd6']})
        elif k == 'dir':
            ops.append({'op': 'env_mkdir', 'a': [[w, 'inputs', 'dir.nc']]})
    return ops + [{'op': 'input_names', 'a': [w, []]} for w in wss]


def run(ctx):
    sc.model(ctx, ('ws', 'io', 'env'), ctx.n(3, 4), files='"f.nc","p.txt"')
    lists = storeh.tlc_behaviours(ctx, ('ws', 'io', 'env'), ctx.n(20, 100), ctx.n(12, 20))
    lists += [ops_for(ctx.rng, ctx.rng.randint(8, 30)) for _ in range(ctx.n(300, 2500))]
    sc.run_cases(ctx, lists)
