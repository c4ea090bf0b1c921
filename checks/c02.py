"""C02: configurations of a workspace: complete, isolated, never overwritten"""
import storeh
from checks import storecheck as sc

BAD = ['', '..', '.', 'x/y']


def ops_for(rng, length):
    wss = rng.sample(['a', 'b', 'default', 'ws 1'], rng.randint(1, 3))
    ops = [{'op': 'env_mkdir', 'a': [[w]]} for w in wss]
    known = {w: [] for w in wss}

    def cname(w, p_bad=.07):
        r = rng.random()
        if r < p_bad:
            return rng.choice(BAD)
        if known.get(w) and r < .65:
            return rng.choice(known[w])
        return rng.choice(sc.CF)
    for _ in range(length):
        w = rng.choice(wss) if rng.random() < .95 else 'nowhere'
        k = rng.choice(['create_cfg'] * 5 + ['delete_cfg', 'copy_cfg', 'copy_cfg', 'rename_cfg', 'rename_cfg', 'set_cur_cfg',
                        'set_cur_cfg', 'get_cur_cfg', 'cfg_names', 'cfg_exists', 'fill', 'edit', 'rm_ws'])
        if k == 'fill':
            if known.get(w):
                c = rng.choice(known[w])
                ops.append({'op': 'env_write', 'a': [[w, 'configs', c, 'outputs', rng.choice(sc.FILES)], 'd1']})
        elif k == 'edit':
            if known.get(w):
                c = rng.choice(known[w])
                ops.append({'op': 'env_write', 'a': [[w, 'configs', c, rng.choice(['CHD.json', 'CNF.json', 'my.txt'])], 'd2']})
        elif k == 'rm_ws':
            pass
        elif k == 'create_cfg':
            c = cname(w)
            ops.append({'op': k, 'a': [w, c, rng.choice(['s3', 's3', 'cryosat'])]})
            if c in sc.CF and w in known:
                known[w].append(c)
        elif k in ('copy_cfg', 'rename_cfg'):
            n = cname(w)
            ops.append({'op': k, 'a': [w, cname(w), n]})
            if n in sc.CF and w in known:
                known[w].append(n)
        elif k in ('get_cur_cfg', 'cfg_names'):
            ops.append({'op': k, 'a': [w]})
        elif k == 'cfg_exists':
            ops.append({'op': k, 'a': [w, cname(w, 0)]})
        else:
            c = cname(w)
            if k == 'set_cur_cfg' and c in BAD:
                c = ''
            ops.append({'op': k, 'a': [w, c]})
    return ops + [{'op': 'cfg_names', 'a': [w]} for w in wss]


def run(ctx):
    sc.model(ctx, ('ws', 'cf'), ctx.n(5, 6), files='"f.nc"')
    lists = storeh.tlc_behaviours(ctx, ('ws', 'cf', 'env'), ctx.n(25, 150), ctx.n(16, 26))
    lists += [ops_for(ctx.rng, ctx.rng.randint(8, 26)) for _ in range(ctx.n(120, 1200))]
    cases = sc.run_cases(ctx, lists)
    loadable(ctx)


def loadable(ctx):
    """a configuration made from either template can be used for processing as it is"""
    import os
    import storeh
    for tpl in ('s3', 'cryosat'):
        d = storeh.Driver(ctx.scratch('load'))
        try:
            d.wm.create_workspace('a')
            d.wm.create_config('a', 'x', cryosat=(tpl == 'cryosat'))
            from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
            cst = ConstantsFile(d.wm.get_config_file('a', 'x', 'CST'))
            chd = CharacterisationFile(cst, d.wm.get_config_file('a', 'x', 'CHD'))
            cnf = ConfigurationFile(d.wm.get_config_file('a', 'x', 'CNF'))
            assert os.path.dirname(d.wm.get_config_file('a', 'x', 'CNF')) == os.path.join(d.root, 'a', 'configs', 'x')
            assert chd.n_samples_sar > 0 and cnf.n_looks_stack > 0 and cst.c > 0
        except Exception as e:
            ctx.violation('a fresh %s configuration cannot be loaded: %s' % (tpl, e), {'template': tpl})
