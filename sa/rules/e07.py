"""E07: a delayed task is never taken before its deadline, its deadline is the current time plus the delay, and the timer never sleeps past it."""
import re

import common
from absint import mk, root, show, under
from names import last, scope
from rules.e02 import is_push
from taskflow import Flow, cont_of, elem_type, elt_of, queues, reaching

TP = 'std::pair<std::chrono::time_point<'
CMP = ('operator<', 'operator>', 'operator<=', 'operator>=', 'operator<=>', 'operator==', 'operator!=')


def value(t, st):
    """what a time value passed by reference is"""
    v = st.env.get(t)
    if v is None and t.k == 'fld':
        v = st.env.get(t.a[0])
    return t if v is None else v


def is_now(t):
    return t.k == 'res' and last(t.a[0]) == 'now'


def is_key(t):
    while t.k == 'ld':
        t = t.a[0]
    while t.k == 'fld' and t.a[-1] in ('__d', '__r'):
        t = t.a[0]
    return t.k == 'fld' and t.a[-1] == 'first' and elt_of(t) is not None


def cls(t, st):
    v = value(t, st)
    if is_now(v):
        return 'now'
    if is_key(v):
        return 'key'
    return '?'


def run(ck):
    p = common.load(ck, common.ALL_UNITS)
    types, pops = queues(p)
    types = {t for t in types if t.startswith(TP)}
    pops = {c for m, cs in p.callers.items() for c in cs if c in p.funcs and elem_type(p.dem(m)) in types
            and re.search(r'::(pop_back|pop_front|erase)\(', p.dem(m))}
    pushers = {c for m, cs in p.callers.items() for c in cs if c in p.funcs and is_push(p.dem(m)) and elem_type(p.dem(m)) in types}
    rp = reaching(p, pops)
    workers = [f for f in common.roots(p) if f.m in rp]

    def mkon(res, fn):
        key = 'timer thread'

        def find(kind, text, ev):
            res.find(kind, key, text, '%s:%s' % (ev.file, ev.line), common.trail(ev))

        def note(k, ev, c=None, *a):
            if k == 'take':
                res.inst('take', '%s:%s' % (ev.file, ev.line))
                if fl.get(cur[0]).get(('due',)) != 1:
                    find('early', 'a task is taken without its deadline having been seen to have passed since the queue was last released', ev)

        fl = Flow(p, lambda *a: None, types, note=note)
        cur = [None]

        def on(ev, st):
            cur[0] = st
            k = ev.kind
            if k in ('lock', 'unlock', 'cvwait', 'cvunlock'):
                if k == 'cvwait':
                    timed = 'until' in ev.q or '_for' in ev.q
                    d = fl.get(st)
                    res.inst('timed wait' if timed else 'untimed wait', '%s:%s' % (ev.file, ev.line))
                    if not timed and d.get(('em',)) != 1:
                        find('oversleep', 'the timer thread waits without a time limit although a task may be queued', ev)
                fl.on(ev, st)
                d = fl.get(st)
                o = dict(d)
                d.pop(('due',), None)
                d.pop(('em',), None)
                if d != o:
                    fl.put(st, d)
                return
            q = ev.q or ''
            if q and scope(q).startswith('std') and last(q) in CMP and len(ev.args) >= 2 and not scope(q).endswith('exception_ptr'):
                l, r = cls(ev.args[0], st), cls(ev.args[1], st)
                if {l, r} == {'now', 'key'}:
                    d = fl.get(st)
                    d[('cmp',)] = (l, last(q))
                    fl.put(st, d)
                    res.inst('comparison', '%s:%s' % (ev.file, ev.line))
            if k == 'assume':
                t, v = ev.args[0], bool(ev.val.a[0])
                while t.k == 'not':
                    t, v = t.a[0], not v
                b = t.a[0] if t.k == 'bool' else t
                d = fl.get(st)
                if b.k == 'res' and last(b.a[0]) in CMP and ('cmp',) in d:
                    l, op0 = d[('cmp',)]
                    op = last(b.a[0])[8:]
                    if op0 == 'operator<=>' or op0 == last(b.a[0]):
                        if not v:
                            op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}.get(op, '?')
                        if l == 'key':
                            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, '?')
                        d[('due',)] = int(op in ('>', '>='))
                        fl.put(st, d)
                if b.k == 'res' and last(b.a[0]) == 'empty' and len(b.a) > 1:
                    d[('em',)] = int(v)
                    fl.put(st, d)
            fl.on(ev, st)
        return on
    common.scan(ck, p, None, mkon, fns=workers, throws=lambda e: False)

    # --- the deadline
    subs = [f for f in p.funcs.values() if f.m in reaching(p, pushers) and scope(f.q) in
            ('stlab::detail::system_timer_type', 'stlab::detail::system_timer') and last(f.q) == 'operator()']

    def mkon2(res, fn):
        key = 'timer submission'

        def on(ev, st):
            q = ev.q or ''
            if scope(q) in ('std::vector', 'std::deque') and last(q) in ('emplace_back', 'push_back') and elem_type(ev.full) in types:
                a = ev.args[1]
                v = st.env.get(a)
                if v is None:
                    v = st.env.get(mk('fld', a, 'std::pair', 'first'))
                res.inst('deadline', '%s:%s' % (ev.file, ev.line))
                why = wrong(v, st, fn)
                if why:
                    res.find('deadline', key, 'the deadline of a delayed task is not the current time plus the delay: %s' % why,
                             '%s:%s' % (ev.file, ev.line), common.trail(ev))
        return on
    common.scan(ck, p, None, mkon2, fns=sorted(subs, key=lambda f: f.m), throws=lambda e: False)
    delayed(ck, p)
    for k, n in (('take', 1), ('comparison', 1), ('timed wait', 1), ('untimed wait', 1), ('deadline', 1), ('delayed', 1)):
        ck.require(k, n)
    return ck.finish('Typestate over every path of the timer thread (a comparison of the clock with the key of the first element, made under the '
                     'current critical section, precedes every removal; no untimed wait unless the queue was seen empty); terms of the deadlines.')


def wrong(v, st, fn):
    if v is None or v.k in ('x', 'ph'):
        return None
    if is_now(v):
        return 'the delay is not added'
    if v.k == 'res' and last(v.a[0]) == 'operator-':
        return 'it is a difference'
    if v.k == 'res' and last(v.a[0]) == 'operator+' and len(v.a) >= 3:
        parts = [value(x, st) for x in v.a[1:3]]
        if not any(is_now(x) for x in parts):
            if all(x.k != 'res' for x in parts):
                return None
        for x in parts:
            if is_now(x):
                continue
            if x.k == 'res' and last(x.a[0]) in ('operator/', 'operator*', 'operator%', 'operator-', 'duration_cast', 'floor', 'round', 'zero', 'min'):
                return 'the delay is changed by %s' % last(x.a[0])
        if sum(is_now(x) for x in parts) == 2:
            return 'the delay is not added'
    return None


def delayed(ck, p):
    """the executor returned by execute_at: the timer with the delay, or the executor at once if there is none"""
    fns = [f for f in p.funcs.values() if re.match(r"^stlab::execute_at::'lambda\d*'::operator\(\)$", f.q)]

    def own(t):
        while t.k in ('ld', 'fld'):
            if t.k == 'fld' and t.a[0].k == 'arg' and t.a[0].a[0] == 0:
                return True
            t = t.a[0]
        return False

    def mkon(res, fn):
        key = 'execute_at'

        def on(ev, st):
            q = ev.q or ''
            d = dict(st.tr[0]) if st.tr else {}
            o = dict(d)
            if q and last(q) in CMP and any(own(a) for a in ev.args):
                d['tested'] = 1
            if ev.kind == 'enter' and q == 'stlab::detail::system_timer_type::operator()' or \
                    ev.kind in ('call', 'enter') and q == 'stlab::detail::system_timer_type::operator()':
                if not any(f.q == q for _, f, _ in ev.stack[:-1]):
                    d['timer'] = min(2, d.get('timer', 0) + 1)
                    a = ev.args[1]
                    v = value(a, st)
                    res.inst('delayed', '%s:%s' % (ev.file, ev.line))
                    if not own(v) and v.k not in ('x', 'ph', 'ev', 'und'):
                        res.find('delay', key, 'the timer is not given the delay the executor was made with (%s)' % show(v)[:60],
                                 '%s:%s' % (ev.file, ev.line), common.trail(ev))
            if q in ('std::function::function', 'std::function::operator=') and len(ev.args) == 2 and '&&' in ev.full[ev.full.rfind('('):] \
                    and ev.args[1].k == 'fld' and root(ev.args[1]).k == 'arg' and root(ev.args[1]).a[0] == 0:
                res.find('consumed', key, 'the executor moves its underlying executor away when it is called: it cannot be called again',
                         '%s:%s' % (ev.file, ev.line))
            if ev.kind == 'user' and q == 'std::function::operator()' and ev.args[0].k == 'fld' and root(ev.args[0]).k == 'arg':
                d['now'] = min(2, d.get('now', 0) + 1)
                if not d.get('tested'):
                    res.find('early', key, 'the task is handed to the executor at once without testing the delay', '%s:%s' % (ev.file, ev.line))
            if d != o:
                st.tr = (frozenset(d.items()),)
        return on

    def after(res, fn, outs):
        for k, r, st in outs:
            if k != 'ret':
                continue
            d = dict(st.tr[0]) if st.tr else {}
            n = d.get('timer', 0) + d.get('now', 0)
            res.inst('delayed', fn.m)
            if n != 1:
                res.find('once', 'execute_at', 'the task is handed over %s' % ('twice' if n else 'to neither the timer nor the executor'),
                         '%s:%s' % (fn.file, fn.line))
    common.scan(ck, p, None, mkon, after=after, fns=sorted(fns, key=lambda f: f.m), throws=lambda e: False)
