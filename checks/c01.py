"""C01: workspace operations affect exactly the named workspaces; failed ones change nothing"""
import storeh
from checks import storecheck as sc


def ops_for(rng, length):
    known, ops = [], []

    def name(p_bad=.06):
        r = rng.random()
        if r < p_bad:
            return rng.choice(sc.BADWS)
        if known and r < .7:
            return rng.choice(known)
        return rng.choice(sc.WS)
    for _ in range(length):
        k = rng.choice(['create_ws'] * 4 + ['delete_ws', 'copy_ws', 'copy_ws', 'rename_ws', 'rename_ws', 'set_cur', 'fill',
                        'fill', 'get_cur', 'ws_names', 'ws_names', 'ws_exists'])
        if k == 'fill':
            if known:
                ops += sc.fill(rng, rng.choice(known))
            continue
        if k in ('copy_ws', 'rename_ws'):
            w, n = name(), name()
            ops.append({'op': k, 'a': [w, n]})
            if n in sc.WS:
                known.append(n)
        elif k in ('get_cur', 'ws_names'):
            ops.append({'op': k, 'a': []})
        else:
            w = name(0 if k in ('ws_exists',) else .06)
            if k == 'set_cur' and w in sc.BADWS:
                w = ''
            ops.append({'op': k, 'a': [w]})
            if k == 'create_ws' and w in sc.WS:
                known.append(w)
    return ops + [{'op': 'ws_names', 'a': []}, {'op': 'get_cur', 'a': []}]


def run(ctx):
    sc.model(ctx, ('ws', 'env'), ctx.n(5, 7))
    lists = storeh.tlc_behaviours(ctx, ('ws', 'env'), ctx.n(25, 150), ctx.n(14, 24))
    lists += [ops_for(ctx.rng, ctx.rng.randint(8, 26)) for _ in range(ctx.n(120, 1200))]
    sc.run_cases(ctx, lists)
    ctx.assumptions = ['store driven through the public workspace manager API on a local POSIX file system']
