"""Drives the real progress monitors and records what reaches the root."""
import contextlib
import io
import os
import re
import signal
import sys

import vlib

S = 64
LABELS = ['adding inputs', 'processing', 'reading', 'a', 'x: y']
MSGS = ['~', '~', 'half way', 'surface 3', 'z', 'step 1: go']


def amount(x):
    if x is None:
        return -1
    v = x * S
    r = round(v)
    return int(r) if abs(v - r) < 1e-6 else -99999


def text(m):
    return '~' if m is None else str(m)


def before(signum, frame):
    raise KeyboardInterrupt


class Case:
    def __init__(self, rng, kind):
        from dedop.util.monitor import Monitor, ConsoleMonitor
        self.rng, self.kind = rng, kind
        self.got = got = []
        if kind == 'rec':
            class Rec(Monitor):
                cancelled = False

                def start(self, label, total_work=None):
                    got.append(['start', amount(total_work), text(label)])

                def progress(self, work=None, msg=None):
                    got.append(['progress', amount(work), text(msg)])

                def done(self):
                    got.append(['done', -1, '~'])

                def cancel(self):
                    self.cancelled = True

                def is_cancelled(self):
                    return self.cancelled
            self.root = Rec()
        elif kind == 'con':
            self.size = rng.choice([None, 0, 10, 30])
            self.root = ConsoleMonitor(stay_in_line=rng.random() < .5, progress_bar_size=self.size)
        else:
            self.root = Monitor.NULL
        self.mons = [self.root]
        self.info = [dict(par=-1, started=False, done=False, total=None, left=None, cm=None, plan=None)]
        self.steps = []
        self.shown, self.col = '', 0

    def parse(self, out):
        lines = []
        pre = self.steps_label + ': '
        for raw in re.findall(r'[^\r\n]+|\r|\n', out):
            if raw == '\n':
                self.shown, self.col = '', 0
                continue
            if raw == '\r':
                self.col = 0
                continue
            # what a terminal shows: the text overwrites what was there, the rest of the line stays
            self.shown = self.shown[:self.col].ljust(self.col) + raw + self.shown[self.col + len(raw):]
            self.col += len(raw)
            line = self.shown.rstrip(' ')
            if not line:
                continue
            if not line.startswith(pre):
                lines.append(['line', -1, 'UNEXPECTED ' + line])
                continue
            rest = line[len(pre):]
            m = re.match(r'(?:\[(#*)(-*)\] )?(?: *(-?\d+)%(?: (.*))?)?$', rest)
            if m and m.group(3) is not None:
                pct, msg = int(m.group(3)), m.group(4) or '~'
                if self.size:
                    n = int(self.size * pct / 100 + .5)
                    if m.group(1) is None or (len(m.group(1)), len(m.group(2))) != (n, self.size - n):
                        msg = 'BAD BAR ' + line
                elif m.group(1) is not None:
                    msg = 'BAD BAR ' + line
                lines.append(['line', pct, msg])
            else:
                lines.append(['line', -1, '~' if rest == 'progress' else rest])
        return lines

    def step(self, op, i, fn, **kw):
        rec = dict(op=op, i=i + 1, work=-1, total=-1, label='~', msg='~', res='ok')
        rec.update(kw)
        del self.got[:]
        out = io.StringIO()
        if op == 'start' and i == 0:
            self.steps_label = kw['label']
        try:
            with contextlib.redirect_stdout(out), vlib.limited():
                fn()
        except BaseException as e:
            rec['res'] = type(e).__name__
        rec['got'] = self.parse(out.getvalue()) if self.kind == 'con' else \
            ([['out', -1, out.getvalue()]] if out.getvalue() else [list(g) for g in self.got])
        canc = []
        for m in self.mons:
            try:
                canc.append(bool(m.is_cancelled()))
            except Exception as e:
                rec['res'] = type(e).__name__
        rec['canc'] = canc
        rec['hand'] = 'before' if signal.getsignal(signal.SIGINT) is before else 'monitor'
        self.steps.append(rec)

    # ------------------------------------------------------------------
    def start(self, i):
        rng, inf = self.rng, self.info[i]
        label = rng.choice(LABELS)
        if i == 0:
            total = rng.choice([0, 1, 2, 3, 4, 7, 8, 13, 20, 37, None])
        else:
            total = inf['plan']
        m = self.mons[i]
        if rng.random() < .5:
            inf['cm'] = m.starting(label, total) if rng.random() < .5 else m.starting(label, total_work=total)
            fn = inf['cm'].__enter__
        else:
            fn = lambda: m.start(label, total) if rng.random() < .5 else m.start(label, total_work=total)
        self.step('start', i, fn, label=label, total=amount(total))
        inf.update(started=True, total=total, left=total)

    def done(self, i):
        inf = self.info[i]
        m = self.mons[i]
        if inf['cm'] is not None:
            if self.rng.random() < .4:
                def fn():
                    # the task failed: the monitor ends, the failure goes on
                    e = RuntimeError('task')
                    try:
                        swallowed = inf['cm'].__exit__(RuntimeError, e, None)
                    except RuntimeError as x:
                        if x is not e:
                            raise
                        swallowed = False
                    if swallowed:
                        raise AssertionError('swallowed')
            else:
                fn = lambda: inf['cm'].__exit__(None, None, None)
        else:
            fn = m.done
        self.step('done', i, fn)
        inf['done'] = True

    def progress(self, i, msg=None):
        rng, inf = self.rng, self.info[i]
        msg = msg or rng.choice(MSGS)
        left = inf['left']
        if rng.random() < .12:
            work = None
        elif left is None:
            work = rng.choice([0, 1, 2, None])
        else:
            work = min(left, rng.choice([0, 1, 1, 2, 3, left]))
            inf['left'] = left - work
        m = self.mons[i]
        mm = None if msg == '~' else msg
        r = rng.random()
        if r < .4:
            fn = lambda: m.progress(work=work, msg=mm)
        elif r < .7 or mm is not None:
            fn = lambda: m.progress(work, mm)
        else:
            fn = lambda: m.progress(work)
        self.step('progress', i, fn, work=amount(work), msg=msg)

    def child(self, i):
        rng, inf = self.rng, self.info[i]
        left = inf['left']
        depth, j = 0, i
        while j > 0:
            depth, j = depth + 1, self.info[j]['par']
        share, total = rng.choice([(1, 4), (2, 4), (3, 4), (4, 4), (1, 2), (2, 2), (1, 1), (2, 1), (3, 1), (5, 20), (10, 20), (20, 20),
                                   (1, 0), (2, None), (3, None), (6, 3), (3, 3), (0, 4)])
        if left is not None:
            if share > left:
                share, total = (left, left) if left else (0, 2)
            inf['left'] = left - share
        new = []

        def fn():
            new.append(self.mons[i].child(share) if rng.random() < .5 or self.kind == 'null' else self.mons[i].child(work=share))
            self.mons.append(new[0])
        self.step('child', i, fn, work=amount(share))
        self.info.append(dict(par=i, started=False, done=False, total=None, left=None, cm=None, plan=total))

    def run(self, n, again=False):
        rng = self.rng
        self.start(0)
        if again:
            self.progress(0, 'next task')
        for _ in range(n):
            if any(s['res'] != 'ok' for s in self.steps):
                break
            live = [i for i, x in enumerate(self.info) if x['started'] and not x['done']]
            fresh = [i for i, x in enumerate(self.info) if not x['started'] and x['par'] in live]
            r = rng.random()
            if fresh and r < .5:
                self.start(rng.choice(fresh))
            elif r < .62 and len(self.info) < 6:
                deep = [i for i in live if self.depth(i) < 3]
                if deep:
                    self.child(rng.choice(deep))
            elif r < .9:
                self.progress(rng.choice(live))
            elif r < .93:
                i = rng.choice(range(len(self.mons)))
                self.step('cancel', i, self.mons[i].cancel)
            elif r < .96 and self.kind == 'con':
                self.step('sigint', 0, lambda: os.kill(os.getpid(), signal.SIGINT))
            else:
                k = [i for i in live if i > 0 and not any(x['par'] == i and not x['done'] and x['started'] for x in self.info)]
                if k:
                    self.done(rng.choice(k))
        if all(s['res'] == 'ok' for s in self.steps):
            for i in reversed([i for i, x in enumerate(self.info) if x['started'] and not x['done']]):
                self.done(i)
            if not again and rng.random() < .4 and not any(any(x['canc']) for x in self.steps):
                # the same monitor is used for the next task
                del self.mons[1:], self.info[1:]
                self.info[0] = dict(par=-1, started=False, done=False, total=None, left=None, cm=None, plan=None)
                return self.run(n, True)
        return {'kind': self.kind, 'steps': self.steps}

    def depth(self, i):
        d = 0
        while i > 0:
            d, i = d + 1, self.info[i]['par']
        return d


def record(rng, kind, n):
    old = signal.signal(signal.SIGINT, before)
    try:
        return Case(rng, kind).run(n)
    finally:
        signal.signal(signal.SIGINT, old)
