"""C30: input and output commands of the shell touch exactly the matching files of the target, and only after consent"""
from checks import shellcheck as sh

W = [('ws_add', 2), ('ws_cur', 2), ('cf_add', 3), ('cf_cur', 2), ('in_add', 6), ('in_rm', 6), ('in_ls', 4), ('out_clean', 3),
     ('out_ls', 4), ('out_open', 2), ('fill', 4), ('stock', 3), ('products', 4), ('ws_rm', 1), ('cf_rm', 1), ('cf_rn', 1)]


def run(ctx):
    sh.model(ctx, ('cf', 'in', 'env'), ctx.n(4, 5), cf=('x',))
    lists = sh.behaviours(ctx, ('ws', 'cf', 'in', 'env'), ctx.n(12, 150), ctx.n(12, 20))
    lists += [sh.Gen(ctx.rng, W).history(ctx.rng.randint(8, 26)) for _ in range(ctx.n(150, 2500))]
    sh.run_cases(ctx, lists)
    ctx.assumptions = ['cate (argument parsing, status codes) replaced by a stand-in: any exception is a non-zero status']
