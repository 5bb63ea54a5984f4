"""L03: no lost wakeups: predicate loops around every condition wait, notification after every enabling change."""
import re

import common
from absint import CONT, show
from guarded import mutates
from names import last, scope, tname

GROW = {'emplace_back', 'emplace_front', 'push_back', 'push_front', 'emplace', 'insert', 'push'}


# wait(n) waits for the number of objects to fall to n: construction is not what it waits for
GROWN = {'stlab::annotate_counters': ('_copy_ctor', '_move_ctor')}


def fldof(t):
    """(object, class, field) of an address inside a field of a library class"""
    best = None
    while t.k in ('fld', 'elt'):
        if t.k == 'fld' and t.a[1] in CVCLS:
            return t.a[0], t.a[1], t.a[2]
        if t.k == 'fld' and t.a[1].startswith('stlab::') and best is None:
            best = t.a
        t = t.a[0]
    return best


CVCLS = {}
JOIN = re.compile(r'std::j?thread::join$')


def predicate_wait(ev):
    """inside wait(lock, predicate): the standard library tests the predicate around every wait"""
    for m, caller, l in ev.stack[-2:]:
        if re.match(r'std::condition_variable(_any)?::wait', caller.q):
            n = len(caller.args)
            if n >= (3 if last(caller.q) == 'wait' else 4):
                return True
    n = len(ev.fn.args)
    return bool(re.match(r'std::condition_variable(_any)?::wait', ev.fn.q)) and n >= (3 if last(ev.fn.q) == 'wait' else 4)


def loads(t, acc):
    """field addresses whose value a condition depends on"""
    if t.k == 'ld' or t.k == 'res' or t.k == 'bool' or t.k in ('not', 'cmp', 'bin', 'd', 'elt'):
        for x in t.a:
            if hasattr(x, 'k'):
                loads(x, acc)
    elif t.k == 'fld':
        f = fldof(t)
        if f:
            acc.append(f)
        else:
            loads(t.a[0], acc)
    return acc


def sign(t, c, f):
    """direction in which the value of t moves when the field grows"""
    if t.k == 'ld':
        x = fldof(t.a[0])
        return 1 if x and x[1:] == (c, f) else 0
    if t.k == 'bin' and t.a[0] == 'add':
        return sign(t.a[1], c, f) + sign(t.a[2], c, f)
    if t.k == 'bin' and t.a[0] == 'sub':
        return sign(t.a[1], c, f) - sign(t.a[2], c, f)
    return 0


def effect(t, c, f):
    """+1: the condition becomes more true when the field grows, -1: less true, 0: unknown"""
    if t.k == 'cmp' and t.a[0] in ('ult', 'slt'):
        return sign(t.a[2], c, f) - sign(t.a[1], c, f)
    return 0


def captured(t):
    """the address was captured by reference in a closure (and is not part of a synchronised class)"""
    if fldof(t):
        return False
    while t.k in ('fld', 'elt'):
        if t.k == 'fld' and t.a[1] == 'closure':
            return False
        t = t.a[0]
    if t.k == 'ld':
        return t.a[0].k == 'fld' and t.a[0].a[1] == 'closure'
    return False


def run(ck):
    p = common.load(ck, common.ALL_UNITS)
    cvcls = {}
    for n, t in p.types.items():
        if t['n'].startswith('stlab::'):
            cv = [f[0] for f in t['f'] if f[1].startswith('std::condition_variable')]
            if cv:
                cvcls[tname(n)] = cv

    CVCLS.clear()
    CVCLS.update(cvcls)

    # ---- pass 1: the waits, what they check before and after. A critical section is judged where it ends.
    def mk1(res, fn):
        pred = res.x.setdefault('pred', set())
        wf = res.x.setdefault('wf', set())

        def judge(sec):
            for i, w in enumerate(sec):
                if w[0] != 'W' or not w[4]:
                    continue
                _, timed, pw, where, wq = w
                before = []
                for x in reversed(sec[:i]):
                    if x[0] == 'W' and before:
                        break
                    if x[0] == 'P':
                        before.append(x)
                wf.add(wq)
                if not before and pw:
                    continue      # the predicate is known false the first time
                if not before:
                    res.find('wait-without-check', 'condition wait in %s' % wq,
                             'the wait is reached without testing its condition under the lock', where,
                             ['entry point ' + common.short_fn(fn.d)])
                    continue
                for b in before:
                    for c, f, s in b[3]:
                        pred.add(((c, f), b[1], b[2], s))
                keys = {(b[1], b[2]) for b in before}
                fields = {cf[:2] for b in before for cf in b[3]}
                ok = False
                for x in sec[i + 1:]:
                    if x[0] == 'P' and (x[1], 1 - x[2]) in keys:
                        ok = True
                    if x[0] == 'W':
                        ok = True     # judged at the next wait
                    if timed and x[0] == 'L' and (x[1], x[2]) in fields:
                        ok = True
                    if timed and x[0] == 'P' and (any(x[1] == k for k, _ in keys) or fields & {cf[:2] for cf in x[3]}):
                        ok = True
                if not ok:
                    res.find('wait-not-rechecked', 'condition wait in %s' % wq,
                             'a path leaves the wait without finding the condition satisfied: a spurious wakeup goes through', where,
                             ['entry point ' + common.short_fn(fn.d)])

        def on(ev, st):
            if ev.kind == 'cvwait':
                res.inst('condition-wait', '%s in %s' % (last(ev.q), waiter(ev)))
                timed = last(ev.q) != 'wait'
                ws = [i for i, x in enumerate(st.tr) if x[0] == 'W']
                if ws:
                    k = max([i for i, x in enumerate(st.tr) if x[0] == 'K'] or [-1])
                    judge(st.tr[k + 1:] + (('W', timed, '', '', ''),))
                    st.tr = st.tr[:k + 1] + st.tr[max(ws) + 1:]
                return ('W', timed, predicate_wait(ev), ev.where(), waiter(ev))
            if ev.kind == 'unlock':
                k = ('K', show(ev.args[0]))
                if k in st.tr:
                    i = len(st.tr) - 1 - st.tr[::-1].index(k)
                    judge(st.tr[i:])
                    st.tr = st.tr[:i]
                return
            if not ev.locks and ev.kind != 'lock':
                return
            if ev.kind == 'assume':
                fs = sorted({(c, f) for _, c, f in loads(ev.args[0], [])})
                return ('P', show(ev.args[0].c), ev.val.a[0], tuple((c, f, effect(ev.args[0], c, f)) for c, f in fs), ev.fn.q)
            if ev.kind in ('load',) or ev.kind == 'call' and ev.args and not mutates(ev, 0):
                f = fldof(ev.args[0])
                if f and f[1] in cvcls:
                    return ('L', f[1], f[2])
            if ev.kind == 'lock':
                return ('K', show(ev.args[0]))
        return on

    memo = {}

    def reaches_wait(f):
        seen, todo = set(), [f.m]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            g = p.funcs.get(x)
            if re.search(r'condition_variable(_any)?::wait', p.dem(x)):
                return True
            if g is None:
                continue
            if x not in memo:
                memo[x] = [i['f'] for b in g.load() for i in b if i['o'] == 'call' and 'f' in i]
            todo += memo[x]
        return False

    def waiter(ev):
        for m, caller, l in reversed(ev.stack):
            if caller.q.startswith('stlab::'):
                return caller.q
        return ev.fn.q

    units = p
    o1 = common.scan(ck, units, reaches_wait, mk1, dup=2,
                     inline=lambda f, a, st: f.q != 'stlab::detail::pts')
    pred = set()
    wf = set()
    for r in o1:
        pred |= r.x.get('pred', set())
        wf |= r.x.get('wf', set())
    blocked = {}
    sgn = {}
    for (c, f), key, val, s in pred:
        blocked.setdefault((c, f), set()).add((key, val))
        sgn.setdefault((c, f), set()).add((val, s))
    ck.cov['waiting_functions'] = sorted(wf)
    ck.cov['predicate_state'] = sorted('%s::%s' % k for k in blocked if k[0] in cvcls)
    # which stored value satisfies the wait: the one the waits are not entered with
    val = {}
    for (c, f), ks in blocked.items():
        for key, v in ks:
            if key.startswith('*') and key.endswith('.' + f):
                val.setdefault((c, f), set()).add(v)

    # ---- pass 2: enabling changes and notifications
    def enabling(ev):
        """(class, field, object) if the event may satisfy a wait"""
        if ev.kind in ('store', 'rmw') or ev.kind == 'call' and ev.args:
            f = fldof(ev.args[0])
            if not f or f[1] not in cvcls or (f[1], f[2]) not in blocked or f[2] in GROWN.get(f[1], ()):
                return None
            obj, c, fl = f
            if ev.kind == 'store':
                bad = val.get((c, fl))
                if bad and ev.val.k == 'c' and (1 if ev.val.a[0] else 0) in bad and len(bad) == 1:
                    return None
                if ev.q == 'atomic' and ev.extra == 'init':
                    return None
                return c, fl, obj
            if ev.kind == 'rmw':
                d = ev.extra if isinstance(ev.extra, int) else 0
                if d and all(s and (d * s > 0) == bool(v) for v, s in sgn[(c, fl)]):
                    return None        # moves the condition away from what the wait is for
                return c, fl, obj
            ln, sc = last(ev.q), scope(ev.q)
            if sc in CONT:
                return (c, fl, obj) if ln in GROW else None
            if ln == 'operator=' and ev.val is not None and ev.val.k != 'null':
                return c, fl, obj
        return None

    def built(ev, c):
        nm = c[c.rfind('::') + 2:]
        fns = [ev.fn.q] + [x[1].q for x in ev.stack]
        return c + '::' + nm in fns

    def ftype(c, f):
        return next((g[1] for t in p.by_tname.get(c, ()) for g in t['f'] if g[0] == f), '')

    def flagged(ev, m):
        """a flag is set, or something is put into a container"""
        return ev.kind == 'store' and ftype(m[1], m[2]) == 'bool' or ev.kind == 'call' and scope(ev.q) in CONT and last(ev.q) in GROW

    def mk2(res, fn):
        def ep(ev):
            return ['entry point ' + common.short_fn(fn.d)] + common.trail(ev)

        def on(ev, st):
            if ev.kind == 'call' and JOIN.match(ev.q):
                for e in st.tr:
                    if e[0] == 'E':
                        res.find('change-without-notify', '%s::%s in %s' % (e[2], e[3], e[6]),
                                 'a change that can satisfy a wait is not notified before a thread is joined', e[5], ep(ev))
                return
            if ev.kind == 'notify':
                a = ev.args[0]
                f = fldof(a)
                cap = captured(a)
                res.inst('notification', '%s in %s' % (show(a), ev.fn.q))
                if cap:
                    if not ev.locks:
                        res.find('notify-after-unlock', 'notify in %s' % ev.fn.q,
                                 'a condition variable on the waiting thread\'s stack is notified without its mutex: it may be '
                                 'destroyed already', ev.where(), ep(ev))
                    st.tr = tuple(x for x in st.tr if x[0] != 'CK')
                if f:
                    obj = show(f[0].c)
                    for x in st.tr:
                        if x[0] == 'E' and x[1] == obj and x[2] == f[1] and not x[4]:
                            res.find('lost-wakeup', '%s::%s in %s' % (x[2], x[3], x[6]),
                                     'a change that can satisfy a wait is made and notified without the mutex: the waiter may be '
                                     'between its check and its wait', x[5], ep(ev))
                    un = [x for x in st.tr if x[0] == 'M' and x[1] == obj and x[2] == f[1]]
                    if un and not any(x[0] == 'E' and x[1] == obj for x in st.tr):
                        res.find('wake-ignored', '%s::%s in %s' % un[-1][2:5],
                                 'the change is notified, but no wait tests it: the waiter goes back to sleep', ev.where(), ep(ev))
                    st.tr = tuple(x for x in st.tr if not (x[0] in 'EM' and x[1] == obj and x[2] == f[1]))
                return
            if ev.kind == 'lock':
                if captured(ev.args[0]):
                    return ('CK', show(ev.args[0]), ev.where(), ev.fn.q)
                f = fldof(ev.args[0])
                if f:
                    obj = show(f[0].c)
                    st.tr = tuple(x[:4] + (True,) + x[5:] if x[0] == 'E' and x[1] == obj else x for x in st.tr)
                return
            if ev.kind == 'unlock' and captured(ev.args[0]):
                mx = show(ev.args[0])
                for x in st.tr:
                    if x[0] == 'CK' and x[1] == mx:
                        res.find('change-without-notify', 'captured mutex in %s' % x[3],
                                 'the waiting thread\'s mutex is taken and released without notifying it', x[2], ep(ev))
                st.tr = tuple(x for x in st.tr if not (x[0] == 'CK' and x[1] == mx))
                return
            m = fldof(ev.args[0]) if ev.args and (ev.kind in ('store', 'rmw') or ev.kind == 'call' and mutates(ev, 0)) else None
            if m and m[1] in cvcls and (m[1], m[2]) not in blocked and m[2] not in cvcls[m[1]] and not built(ev, m[1]) and \
                    waiter(ev) not in wf and ev.fn.q not in wf and ev.extra != 'init' and \
                    not re.search('mutex|thread', ftype(m[1], m[2])) and flagged(ev, m):
                return ('M', show(m[0].c), m[1], m[2], ev.fn.q)
            x = enabling(ev)
            if x and not built(ev, x[0]):
                c, fl, obj = x
                if waiter(ev) in wf or ev.fn.q in wf:
                    return None
                res.inst('enabling-change', '%s::%s in %s' % (c, fl, ev.fn.q))
                held = any(l.k == 'fld' and l.a[0] is obj.c for l in ev.locks)
                return ('E', show(obj.c), c, fl, held, ev.where(), ev.fn.q)
        return on

    def after2(res, fn, outs):
        for kind, r, st in outs:
            if kind != 'ret':
                continue
            for e in st.tr:
                if e[0] == 'E':
                    _, obj, c, fl, held, where, fq = e
                    res.find('change-without-notify', '%s::%s in %s' % (c, fl, fq),
                             'a change that can satisfy a wait is not followed by a notification on some path', where,
                             ['entry point ' + common.short_fn(fn.d)])
    # the annotate destructor decrements what wait() waits for
    o2 = common.scan(ck, units, lambda f: True, mk2, after=after2, dup=2)
    ck.require('condition-wait', 5)
    ck.require('notification', 8)
    ck.require('enabling-change', 6)
    return ck.finish('Pass 1 finds every condition-variable wait on every path, the conditions tested since the lock was taken (the wait '
                     'predicate) and requires each exit after a wait to have found one of them changed. Pass 2 takes every change of '
                     'the predicate state in the direction that satisfies the wait and requires, on each path, that it is made under '
                     'the mutex (or the mutex is taken before notifying) and is followed by a notification of the same object; a '
                     'condition variable on the waiter\'s own stack must be notified under its mutex.')
