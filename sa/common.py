"""Loading the program and running analyses over its entry points in parallel."""
import multiprocessing
import os
import time
import traceback

from absint import Interp, Budget, show, T
from build import Broken, dumps
from ir import Program
from roots import roots

ALL_UNITS = ['w_future.cpp', 'w_exec.cpp', 'w_await.cpp', 'w_task.cpp', 'w_channel.cpp',
             'repo:src/concurrency/default_executor.cpp', 'repo:src/pre_exit.cpp']
_progs = {}


def load(ck, units, cfg='portable20'):
    k = (tuple(units), cfg)
    if k not in _progs:
        _progs[k] = Program(dumps(list(units), cfg))
    p = _progs[k]
    if ck is not None:
        ck.cov.setdefault('units', [])
        for u in units:
            n = u + ' [' + cfg + ']'
            if n not in ck.cov['units']:
                ck.cov['units'].append(n)
    return p


_G = None


def _one(i):
    fn, rs = _G
    try:
        t = time.time()
        r = fn(rs[i])
        return i, 'ok', r, time.time() - t
    except Budget as e:
        return i, 'budget', str(e), 0
    except Exception:
        return i, 'error', traceback.format_exc(), 0


def pmap(fn, items, jobs=8):
    """fn(item) in forked workers; results in the order of items"""
    global _G
    items = list(items)
    out = [None] * len(items)
    if not items:
        return out
    _G = (fn, items)
    if len(items) == 1 or jobs == 1:
        rs = map(_one, range(len(items)))
        pool = None
    else:
        pool = multiprocessing.get_context('fork').Pool(min(jobs, len(items)))
        rs = pool.imap_unordered(_one, range(len(items)), 1)
    try:
        for i, k, r, t in rs:
            if k == 'budget':
                raise Broken('step budget exhausted: ' + r)
            if k == 'error':
                raise Broken('analysis failed on %s:\n%s' % (getattr(items[i], 'd', items[i]), r))
            out[i] = r
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    return out


class Res:
    """what an analysis of one entry point reports (picklable)"""

    def __init__(self):
        self.i = set()       # (rule, instance)
        self.f = {}          # (rule, key) -> (msg, where, path)
        self.n = {}          # counters
        self.x = {}          # rule specific

    def inst(self, rule, what):
        self.i.add((rule, what))

    def find(self, rule, key, msg, where='', path=()):
        self.f.setdefault((rule, key), (msg, where, tuple(path)))

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n


def merge(ck, rs):
    n = {}
    for r in rs:
        for rule, what in r.i:
            ck.inst(rule, what)
        for (rule, key), (msg, where, path) in r.f.items():
            ck.find(rule, key, msg, where, path)
        for k, v in r.n.items():
            n[k] = n.get(k, 0) + v
    for k, v in n.items():
        ck.cov[k] = ck.cov.get(k, 0) + v
    return n


def scan(ck, prog, pred, mkon, budget=3000000, after=None, fns=None, **kw):
    """run every entry point accepted by pred; mkon(res, fn) -> on hook; after(res, fn, outs)"""
    rs = roots(prog, pred) if fns is None else fns

    def one(fn):
        res = Res()
        it = Interp(prog, on=mkon(res, fn), budget=budget, **kw)
        outs = it.run(fn)
        res.count('entry_points')
        res.count('abstract_steps', it.steps)
        res.count('call_sites_interpreted', it.ncalls)
        res.count('events', it.nevents)
        res.count('paths_at_exit', len(outs))
        res.x['fns'] = set(it.visited_fns)
        if after:
            after(res, fn, outs)
        return res
    out = pmap(one, sorted(rs, key=lambda f: f.m))
    merge(ck, out)
    fns = set()
    for r in out:
        fns |= r.x['fns']
    ck.cov['functions_interpreted'] = ck.cov.get('functions_interpreted', 0) + len(fns)
    return out


def trail(ev):
    """call path of an event, outermost first"""
    out = []
    for m, caller, l in ev.stack:
        out.append('called from %s:%s in %s' % (caller.files[l[0]] if l else caller.file, l[1] if l else caller.line,
                                                short_fn(caller.d)))
    return out


def short_fn(d):
    return d if len(d) < 200 else d[:197] + '...'
