"""E01: every task handed to an executor, the timer or a serial queue is run exactly once."""
import re

import common
from absint import mk, show

from names import last, scope
from taskflow import Flow, queues, reaching

SUBMIT = re.compile(r'^stlab::detail::(executor_type|system_timer_type|system_timer|immediate_executor_type|priority_task_system::execute|'
                    r'serial_instance_t::enqueue)')


def run(ck):
    p = common.load(ck, common.ALL_UNITS)
    types, pops = queues(p)
    rch = reaching(p, pops)
    roots = common.roots(p)
    workers = [f for f in roots if f.m in rch]

    # --- taking side
    def mkon(res, fn):
        key = 'worker %s' % common.short_fn(worker_name(fn))

        def bad(kind, text, ev):
            res.find(kind, key, text, '%s:%s' % (ev.file, ev.line), common.trail(ev))

        def note(k, ev, *a):
            if k == 'take':
                res.inst('take', ev.file + ':%s' % ev.line)
            elif k == 'remove':
                res.inst('remove', ev.file + ':%s' % ev.line)
            elif k == 'run':
                res.inst('run', ev.file + ':%s' % ev.line)
            elif k == 'unordered':
                pass
        fl = Flow(p, bad, types, note=note)

        pool = 'priority_task_system' in fn.d

        def on(ev, st):
            if pool and ev.kind == 'assume':
                drained(ev, st)
            return fl.on(ev, st)

        def drained(ev, st):
            """under the (blocking) lock of a queue: is the queue known to be empty?"""
            t, v = ev.args[0], bool(ev.val.a[0])
            while t.k == 'not':
                t, v = t.a[0], not v
            if t.k != 'bool' or t.a[0].k != 'res' or last(t.a[0].a[0]) != 'empty' or len(t.a[0].a) < 2:
                return
            c = t.a[0].a[1]
            if c.k == 'fld' and any(m.k == 'fld' and m.a[0] is c.a[0] and mode != 'try' for m, mode in st.locks):
                d = fl.get(st)
                d[('e',)] = int(v)
                fl.put(st, d)
        return on

    def after(res, fn, outs):
        res.inst('worker', fn.m)
        key = 'worker %s' % common.short_fn(worker_name(fn))
        for k, r, st in outs:
            if k != 'ret' or not st.tr:
                continue
            for (kk, *rest), v in st.tr[0]:
                if kk == 't' and v == 'F' and rest[0].k == 'al':
                    res.find('dropped', key, 'a task that was taken out of a queue is not run', '%s:%s' % (fn.file, fn.line))
                if kk == 'e':
                    res.inst('drain', fn.m)
                    if not v:
                        res.find('abandoned', key, 'a worker can end while its queue still holds tasks', '%s:%s' % (fn.file, fn.line))
                if kk == 'a':
                    res.find('dropped', key, 'not all tasks that were taken out of a queue are run', '%s:%s' % (fn.file, fn.line))
    common.scan(ck, p, None, mkon, after=after, fns=workers, throws=lambda e: False)

    # --- handing over
    subs = [f for f in p.funcs.values() if submitter(f)]

    def mkon2(res, fn):
        key = 'submission through %s' % short(fn)

        def bad(kind, text, ev):
            res.find(kind, key, text, '%s:%s' % (ev.file, ev.line), common.trail(ev))

        def note(k, ev, *a):
            if k == 'push':
                res.inst('push', ev.file + ':%s' % ev.line)
        return Flow(p, bad, types, seed={('t', mk('arg', len(fn.args) - 1, fn.args[-1][0])): 'F'}, note=note).on

    def after2(res, fn, outs):
        res.inst('submission', fn.m)
        key = 'submission through %s' % short(fn)
        for k, r, st in outs:
            if k != 'ret':
                continue
            d = dict(st.tr[0]) if st.tr else {}
            n = d.get(('n',), 0)
            if n == 0:
                res.find('lost', key, 'there is a path on which the task is neither queued nor run', '%s:%s' % (fn.file, fn.line))
            if n > 1:
                res.find('twice', key, 'there is a path on which the task is queued or run twice', '%s:%s' % (fn.file, fn.line))
    common.scan(ck, p, None, mkon2, after=after2, fns=sorted(subs, key=lambda f: f.m), throws=lambda e: False)
    ck.require('worker', 4)
    ck.require('take', 3)
    ck.require('remove', 3)
    ck.require('run', 3)
    ck.require('drain', 1)
    ck.require('submission', 6)
    ck.require('push', 3)
    return ck.finish('Linear-resource analysis of task objects over all paths of every worker loop (taken, moved, run, destroyed) and of every '
                     'submission (moved into exactly one queue element or run).')


def worker_name(fn):
    d = fn.d
    m = re.search(r"stlab::[\w:]*::(\w+)\([^()]*\)::'lambda\d*'", d)
    return m.group(0) if m else fn.q


def short(fn):
    return fn.q


def submitter(f):
    if not f.args or f.args[-1][0] in ('this', ''):
        return False
    if f.q in ('stlab::detail::executor_type::operator()', 'stlab::detail::immediate_executor_type::operator()'):
        return True
    if f.q == 'stlab::detail::system_timer_type::operator()':
        return 'time_point' not in f.d
    if f.q == 'stlab::detail::serial_instance_t::enqueue':
        return True
    return False
