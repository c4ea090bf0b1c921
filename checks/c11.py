"""C11: the tool goes by its settings: the local file over the user's"""
import random
import shutil
from concurrent.futures import ThreadPoolExecutor

import settingsh


def run(ctx):
    ctx.model_check('MCSettings', 'SPECIFICATION Spec\nCONSTANTS Names={"a","b"} Vals={"u","v"} MaxSessions=%d\nCHECK_DEADLOCK FALSE\n'
                    'INVARIANT AsLoaded\nINVARIANT LocalWins\nINVARIANT NothingElse\n' % ctx.n(1, 2), workers=8)
    jobs = [(random.Random(ctx.rng.random()), ctx.scratch('set')) for _ in range(ctx.n(40, 400))]

    def go(j):
        c = settingsh.Case(*j).run(j[0].randint(1, 3))
        shutil.rmtree(j[1], ignore_errors=True)
        return c
    with ThreadPoolExecutor(6) as ex:
        cases = list(ex.map(go, jobs))
    ctx.report(cases, ctx.judge('SettingsTrace', cases, workers=8))
    for op in ('session', 'value', 'path', 'editor', 'notebook', 'workspace', 'run'):
        ctx.extra[op] = sum(s['op'] == op for c in cases for s in c['steps'])
    for c in cases[:2]:
        ctx.sample([[s['op'], s.get('name', ''), s.get('res', '')] for s in c['steps']][:12])
    ctx.assumptions = ['files do not change while a session runs']
