"""C07: every notebook made for a product is a new file that names that product; none is ever overwritten"""
from checks import shellcheck as sh

W = [('ws_add', 2), ('ws_cur', 2), ('cf_add', 4), ('cf_cur', 2), ('out_ins', 12), ('out_cmp', 10), ('fill', 6), ('nbfile', 3),
     ('nbrm', 3), ('nbs', 4), ('ws_cp', 1), ('ws_rn', 1)]


def run(ctx):
    sh.model(ctx, ('cf', 'nb', 'env'), ctx.n(4, 5), ws=('a', 'default'), cf=('x',))
    lists = sh.behaviours(ctx, ('cf', 'nb', 'env'), ctx.n(12, 150), ctx.n(12, 20))
    lists += [sh.Gen(ctx.rng, W).history(ctx.rng.randint(8, 24)) for _ in range(ctx.n(170, 2500))]
    sh.run_cases(ctx, lists)
    ctx.assumptions = ['cate replaced by a stand-in', 'starting the notebook server replaced by a recording stand-in']
