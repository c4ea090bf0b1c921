"""C04: shell commands act on the named or current workspace/configuration, and keep the current ones valid"""
from checks import shellcheck as sh

W = [('ws_add', 4), ('ws_rm', 4), ('ws_cp', 3), ('ws_rn', 4), ('ws_cur', 4), ('ws_ls', 1), ('cf_add', 7), ('cf_rm', 4), ('cf_cp', 3),
     ('cf_rn', 4), ('cf_cur', 4), ('cf_ls', 2), ('cf_ed', 2), ('cf_info', 1), ('in_add', 2), ('status', 2), ('fill', 4), ('pile', 3)]


def run(ctx):
    sh.model(ctx, ('ws', 'cf', 'in'), ctx.n(4, 5))
    sh.model(ctx, ('ws', 'cf'), ctx.n(5, 7), cf=('x',))
    lists = sh.behaviours(ctx, ('ws', 'cf', 'in', 'env'), ctx.n(12, 150), ctx.n(12, 20))
    lists += [sh.Gen(ctx.rng, W).history(ctx.rng.randint(8, 26)) for _ in range(ctx.n(150, 2500))]
    sh.run_cases(ctx, lists)
    ctx.assumptions = ['cate (argument parsing, status codes) replaced by a stand-in: any exception is a non-zero status']
