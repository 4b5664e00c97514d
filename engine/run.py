"""Run the obligations of a property, each in its own process, and report."""
import multiprocessing as mp
import os
import signal
import sys

from . import terms as tm
from .compare import compare, limits, Result
from .front import Repo

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
_repo = [None]


def load(root=None):
    repo = Repo(root or REPO)
    d = os.path.join(VERIF, 'specs')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != '__init__.py':
            repo.add_module('specs.' + f[:-3], os.path.join(d, f), os.path.join('specs', f))
    repo.link()
    return repo


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def one(job):
    spec, name, opts, seconds = job
    sys.setrecursionlimit(20000)
    limits()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        if opts.get('rule'):
            import importlib
            mod = importlib.import_module('rules.' + spec)
            r = mod.RULES[name](_repo[0], opts)
        else:
            r = compare(_repo[0], spec, name, opts)
    except Timeout:
        r = Result(name)
        r.status, r.detail = 'undecided', 'time limit of %d s' % seconds
    finally:
        signal.alarm(0)
    return r.as_dict()


def run(jobs, root=None, procs=8):
    _repo[0] = load(root)
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, max(1, len(jobs))), maxtasksperchild=1) as pool:
        return pool.map(one, jobs, chunksize=1)
