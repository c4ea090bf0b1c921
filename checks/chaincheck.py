"""shared by the checks of the processing chain"""
import copy

import chaincases as cc

MC = '''SPECIFICATION Spec
CONSTANTS MaxRecs=%d Spacing=2 Half=%d Gap=2 MinSurfs=%d Looks=3 Steps={1,2} Deltas={1,3} WithCancel=TRUE
CHECK_DEADLOCK FALSE
INVARIANT Complete Refused NotRefused CancelPrefix Progress Counts Isolated
'''
FORMATS = ('extended', 'sentinel-3')
ALL = ('refusal', 'count', 'place', 'stack', 'payload', 'align', 'fields', 'time', 'utc', 'names')


def model(ctx):
    if ctx.thorough:
        ctx.model_check('MCChain', MC % (6, 2, 4), workers=8, timeout=1500)
        ctx.model_check('MCChain', MC % (6, 1, 3), workers=8, timeout=1500)
    else:
        ctx.model_check('MCChain', MC % (5, 1, 3), workers=8)


def segs(rng, kind):
    """sizes of the segments of a file: list of (records, minimal extent)"""
    if kind == 'gaps':
        return [(rng.choice([1, 2, 3, 5, 8, 12, 16, 22]), None) for _ in range(rng.randint(2, 6))]
    if kind == 'long':      # enough surfaces for the chain to start before the end of the file
        return [(86, rng.choice([79000, 82000, 95000, 110000]))]
    if kind == 'short':     # around the minimum
        return [(rng.choice([3, 40, 60]), rng.choice([None, 70000, 78100, 79050]))]
    if kind == 'longgaps':
        out = [(86, 90000)]
        out.insert(rng.randint(0, 1), (rng.choice([1, 4, 9, 15]), None))
        if rng.random() < .5:
            out.append((rng.choice([1, 6, 12]), None))
        return out
    raise ValueError(kind)


def bursts(rng, kind, **kw):
    utc = kw.pop('utc', 'random')
    style = kw.pop('style', None) or ('nominal' if kind in ('long', 'longgaps', 'short') else 'mixed')
    return cc.dress(rng, cc.track(rng, segs(rng, kind), style=style, **kw), utc=utc)


def conf(rng, **kw):
    c = {'N_looks_stack_cnf': rng.choice([4, 6, 8, 8, 16]), 'output_format_flag_cnf': rng.choice(FORMATS),
         'flag_azimuth_processing_method_cnf': rng.choice(['approx', 'exact'])}
    c.update(kw)
    return c


def cal(rng):
    return {'flag_cal1_corrections_cnf': rng.random() < .5, 'flag_cal2_correction_cnf': rng.random() < .5,
            'flag_cal2_table_index_cnf': rng.randint(0, 2)}


def judge(ctx, plans):
    cases = cc.execute(ctx, plans)
    rejected = ctx.judge('ChainTrace', cases)
    ctx.report(cases, rejected)
    for c in cases[:2] + cases[-1:]:
        ctx.sample(dict(records=len(c['rs']), cnf=c['_cnf'], roi=c['_roi'], product_records=len(c['obs']['recs']),
                        first=[dict(p=r['p'], nb=r['nb'], t=r['t']) for r in c['obs']['recs'][:3]]))
    stat(ctx, cases)
    return cases


def stat(ctx, cases):
    ctx.extra['product_records'] = ctx.extra.get('product_records', 0) + sum(len(c['obs']['recs']) for c in cases)
    ctx.extra['input_records'] = ctx.extra.get('input_records', 0) + sum(len(c['rs']) for c in cases)


def side(c):
    return dict(rs=[dict(pos=r['pos'], t=r['t'], use=r['use']) for r in c['rs']], P=c['P'], err=c['obs']['err'],
                dig=c['obs']['digests'])


def relate(ctx, triples):
    """triples: (kind, case x, case y, number of common segments)"""
    rel = [dict(kind=k, x=side(x), y=side(y), m=m, _x=x, _y=y) for k, x, y, m in triples]
    rejected = ctx.judge('ChainRel', rel)
    for i in sorted(rejected)[:5]:
        x, y = triples[i][1], triples[i][2]
        ctx.violation(rejected[i], dict(kind=triples[i][0], x=dict(x, obs=None), y=dict(y, obs=None)))
    ctx.extra['related_pairs'] = ctx.extra.get('related_pairs', 0) + len(rel)


def clone(b):
    return copy.deepcopy(b)
