"""C34: positions belong to their coordinates on the ellipsoid; directions and distances are those between them"""
import shutil

import geoh

MC = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Ring Positions Directions\n'


def run(ctx):
    ctx.model_check('MCGeo', MC, workers=8)
    cases = [geoh.points(ctx.rng) for _ in range(ctx.n(150, 2500))]
    for i in range(ctx.n(14, 120)):
        d = ctx.scratch('pass')
        cases.append(geoh.passage(ctx.rng, d))
        shutil.rmtree(d, ignore_errors=True)
    ctx.report(cases, ctx.judge('GeoTrace', cases, workers=8))
    ctx.extra['positions'] = sum(len(c['q']) for c in cases)
    ctx.extra['records'] = sum(c.get('n', 0) for c in cases)
    for c in cases[:2] + cases[-2:]:
        ctx.sample([q['what'] for q in c['q']])
