"""C06: "run" processes each configuration of the run with each input exactly once, with that configuration's files"""
from checks import shellcheck as sh

W = [('ws_add', 2), ('ws_cur', 2), ('cf_add', 6), ('cf_rm', 1), ('cf_cur', 3), ('in_add', 6), ('in_rm', 1), ('run', 16), ('fill', 3),
     ('ws_rn', 1), ('cf_rn', 1)]


def run(ctx):
    sh.model(ctx, ('cf', 'in', 'run'), ctx.n(4, 5))
    lists = sh.behaviours(ctx, ('ws', 'cf', 'in', 'run'), ctx.n(12, 150), ctx.n(12, 20))
    lists += [sh.Gen(ctx.rng, W).history(ctx.rng.randint(6, 20)) for _ in range(ctx.n(170, 2500))]
    cases = sh.run_cases(ctx, lists)
    runs = [s for c in cases for s in c['_steps'] if s['op'] == 'sh_run']
    ctx.extra['runs'] = len(runs)
    ctx.extra['jobs'] = sum(len(s['ret']) for s in runs)
    ctx.assumptions = ['cate replaced by a stand-in', 'the processor is a recording stand-in given as processor_factory']
