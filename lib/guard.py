"""Keeps everything the code under test deletes or overwrites inside the scratch directory."""
import os
import sys

import vlib

SCRATCH = os.path.realpath(os.environ['VERIF_SCRATCH'])
_on = [False]
blocked = []


def _inside(p):
    try:
        if isinstance(p, int):
            return True
        p = os.fsdecode(p)
    except TypeError:
        return True
    q = os.path.realpath(p)
    return q == SCRATCH or q.startswith(SCRATCH + os.sep) or q.startswith('/dev/')


def _hook(event, args):
    if not _on[0]:
        return
    bad = None
    if event == 'open':
        path, mode, flags = args
        if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) and not _inside(path):
            bad = path
    elif event in ('os.remove', 'os.rmdir'):
        if args[-1] in (-1, None) and not _inside(args[0]):
            bad = args[0]
    elif event in ('os.mkdir',):
        if args[-1] in (-1, None) and not _inside(args[0]):
            bad = args[0]
    elif event == 'os.rename':
        if not (_inside(args[0]) and _inside(args[1])):
            bad = args[0]
    elif event in ('shutil.rmtree',):
        if not _inside(args[0]):
            bad = args[0]
    elif event in ('shutil.move', 'shutil.copytree', 'shutil.copyfile'):
        if not _inside(args[1]):
            bad = args[1]
    elif event in ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.fork'):
        bad = event
    if bad is not None:
        blocked.append((event, str(bad)))
        raise PermissionError('blocked by the harness: %s %s' % (event, bad))


sys.addaudithook(_hook)


class guarded(vlib.limited):
    def __enter__(self):
        super().__enter__()
        _on[0] = True

    def __exit__(self, *a):
        _on[0] = False
        super().__exit__(*a)
