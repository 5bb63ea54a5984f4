"""F12: await gives the value of a future that is ready, its waiter outlives the wake-up, and a waiting thread is replaced."""
import re

import common
from absint import C, FALSE, Interp, NULL, TRUE, root, show
from names import last, scope

LAM = r"stlab::await<.*>\(stlab::future<[^()]*>&&\)::'lambda\d*'\(stlab::future<.*&&\)::operator\(\)"


def cells(a):
    if a.k == 'fld' and a.a[1].endswith('blocking_get_guarded') and a.a[2] == '_timed_out':
        return '_mutex', True
    return None


class W:
    def __init__(self, ck, f, how):
        self.ck, self.f, self.how = ck, f, how

    def find(self, key, msg, ev):
        self.ck.find(self.how, key, msg, ev.where() if ev is not None else self.f.d[:100], common.trail(ev) if ev is not None else None)

    def __call__(self, ev, st):
        d = dict(st.tr[0]) if st.tr else {}
        getattr(self, self.how)(ev, st, d)
        st.tr = (frozenset(d.items()),)

    # the continuation that wakes the waiter: everything it refers to is on the stack of the waiter
    def wake(self, ev, st, d):
        if ev.kind == 'lock':
            d['held'] = 1
        elif ev.kind == 'unlock' and not ev.q == 'cvwait':
            if d.get('held'):
                d['released'] = 1
            d.pop('held', None)
        elif ev.kind in ('enter', 'call') and last(ev.q) == 'operator=' and ev.args and 'future' in ev.q and ev.args[0].k != 'arg':
            d['stored'] = 1
            if not d.get('held'):
                self.find('store', 'await: the result is stored without the mutex of the waiter', ev)
        elif ev.kind == 'notify':
            d['notified'] = 1
            if not d.get('stored'):
                self.find('early', 'await: the waiter is woken before the result is stored', ev)
            if not d.get('held'):
                self.find('notify', 'await: the waiter is woken without its mutex: it may be gone', ev)
        if d.get('released') and ev.kind in ('notify', 'load', 'store', 'lock', 'enter', 'call') and any(
                root(x).k == 'ld' and root(x).a[0].k == 'fld' and root(x).a[0].a[0].k == 'arg' and root(x).a[0].a[0].a[0] == 0 for x in ev.args[:1]):
            self.find('after', 'await: the state of the waiter is used after its mutex is released: it may be gone', ev)

    # the thread that waits is replaced
    def replace(self, ev, st, d):
        if ev.kind == 'leave' and last(ev.q) == 'wake' and 'task_system' in ev.q and ev.res is not None:
            d['wake'] = ev.res
        elif ev.kind in ('enter', 'call') and last(ev.q) == 'add_thread':
            d['added'] = 1
        elif ev.kind == 'user' and last(ev.q) == 'operator()':
            d['ran'] = 1
            w = d.get('wake')
            v = None if w is None else st.facts.get(w) or w
            t = None if v is None else (bool(v.a[0]) if v.k == 'c' else None)
            if not d.get('added') and t is not True:
                self.find('replace', 'a thread waits and no other thread is woken or added before', ev)

    # the hand-over between the result and the timeout
    def set(self, ev, st, d):
        self.section(ev, d)
        if ev.kind in ('enter', 'call') and last(ev.q) == 'operator=' and ev.args and show(ev.args[0]).endswith('_result'):
            d['stored'] = show(ev.args[1]) if len(ev.args) > 1 else '?'
            if not d.get('read'):
                self.find('decide', 'await_for: the result is kept without looking, under the same lock, whether the wait timed out', ev)
            elif d.get('out'):
                self.find('decide', 'await_for: the result is kept after the wait timed out: nobody takes it', ev)
        elif ev.kind == 'load' and ev.args[0].k == 'fld' and ev.args[0].a[2] == '_timed_out':
            if ev.res is not None and ev.res.k == 'c':
                d['out'] = bool(ev.res.a[0])
            if d.get('held'):
                d['read'] = d['held']
            else:
                self.find('unlocked', 'await_for: whether the wait timed out is read without the mutex', ev)
        elif ev.kind == 'assume' and ev.args and '_timed_out' in show(ev.args[0]):
            d['out'] = bool(ev.val.a[0]) != show(ev.args[0]).startswith('!')
        elif ev.kind == 'notify':
            d['notified'] = 1
            if not d.get('stored'):
                self.find('early', 'await_for: the waiter is woken before the result is stored', ev)
        elif ev.kind in ('enter', 'call') and last(ev.q) == 'future' and len(ev.args) == 2 and show(ev.args[0]) == 'agg.result':
            d['returned'] = show(ev.args[1])
        elif ev.kind in ('enter', 'call') and last(ev.q) == 'future' and len(ev.args) == 1 and show(ev.args[0]) == 'agg.result':
            d['empty'] = 1

    def section(self, ev, d):
        if ev.kind == 'lock' and ev.args and show(ev.args[0]).endswith('._mutex') and 'pts' not in show(ev.args[0]):
            d['held'] = d.get('n', 0) + 1
            d['n'] = d['held']
            d.pop('read', None)
        elif ev.kind == 'unlock' and 'pts' not in show(ev.args[0]):
            d.pop('held', None)
            d.pop('read', None)
        elif ev.kind == 'cvwait':
            d['waited'] = 1
            d.pop('known', None)

    def waitfor(self, ev, st, d):
        self.section(ev, d)
        if ev.kind == 'assume' and ev.args and '_result' in show(ev.args[0]) and ev.val is not None and ev.val.k == 'c':
            d['known'] = bool(ev.val.a[0]) != show(ev.args[0]).startswith('!')
        elif ev.kind in ('store', 'rmw') and ev.args[0].k == 'fld' and ev.args[0].a[2] == '_timed_out':
            if not d.get('held'):
                self.find('unlocked', 'await_for: that the wait timed out is noted without the mutex', ev)
            t = show(ev.val)
            if ev.val.k == 'c' and d.get('known') is not None:
                if bool(ev.val.a[0]) == d['known']:
                    self.find('decide', 'await_for: the wait counts as %s where there is %s result' % ('timed out' if ev.val.a[0] else 'not timed out', 'a' if d['known'] else 'no'), ev)
                d['noted'] = bool(ev.val.a[0])
            elif ev.val.k != 'c' and '_result' not in t:
                self.find('decide', 'await_for: whether the wait timed out does not follow whether there is a result (%s)' % t, ev)
            elif ev.val.k != 'c' and not t.startswith('!'):
                self.find('decide', 'await_for: the wait counts as timed out where there is a result', ev)
            d['stored'] = 1
        elif ev.kind in ('enter', 'call') and last(ev.q) == 'future' and len(ev.args) == 2 and show(ev.args[0]) == 'agg.result':
            d['returned'] = show(ev.args[1])
            if not d.get('held'):
                self.find('unlocked', 'await_for: the result is taken without the mutex', ev)
            if d.get('noted'):
                self.find('decide', 'await_for: a result is taken by a wait that timed out', ev)


def analyse(ck, p, f, how):
    it = Interp(p, on=W(ck, f, how), deep=True, throws=lambda e: False, cells=cells)
    n = 0
    for k, r, st in it.run(f):
        if k != 'ret':
            continue
        n += 1
        d = dict(st.tr[0]) if st.tr else {}
        if how == 'wake':
            if not d.get('stored'):
                ck.find(how, 'lost', 'await: the result is not stored on some path', f.d[:120])
            elif not d.get('notified'):
                ck.find(how, 'silent', 'await: the waiter is not woken on some path', f.d[:120])
        elif how == 'replace' and not d.get('ran'):
            ck.find(how, 'skipped', 'invoke_waiting does not call the function on some path', f.d[:120])
        elif how == 'set':
            if d.get('out') and not re.match(r'\(?\*?r\b', d.get('returned', 'r')):
                ck.find(how, 'lost', 'await_for: a result that comes after the timeout is not passed on (%s)' % d.get('returned'), f.d[:120])
            if d.get('out') is False and not d.get('stored'):
                ck.find(how, 'lost', 'await_for: a result that comes in time is not kept', f.d[:120])
            if d.get('stored') and d.get('returned') is None and d.get('empty'):
                ck.find(how, 'invalid', 'await_for: the continuation returns no future: reducing it attaches to nothing', f.d[:120])
            if d.get('stored') and not d.get('notified'):
                ck.find(how, 'silent', 'await_for: the waiter is not woken on some path', f.d[:120])
        elif how == 'waitfor':
            if not d.get('stored') and d.get('known') is not True:
                ck.find(how, 'unnoted', 'await_for: it is not noted whether the wait timed out', f.d[:120])
            if (d.get('noted') is False or d.get('known')) and not d.get('returned', '').endswith('_result'):
                ck.find(how, 'lost', 'await_for: a result that came in time is not returned', f.d[:120])
    ck.inst(how, f.d)
    return n


def obj(d, t):
    return d.get('o ' + show(t), show(t) if t.k == 'arg' else None)


def outer(ck, p, f):
    """await_for: what is not taken in time stays in the future that is returned"""
    def on(ev, st):
        d = dict(st.tr[0]) if st.tr else {}
        if ev.kind == 'call' and ev.extra is not None and (last(ev.q) == 'recover' or scope(ev.q).endswith('blocking_get_guarded')):
            d['o ' + show(ev.extra)] = 'hold' if last(ev.q) == 'recover' else 'result'
            if last(ev.q) == 'recover':
                d['o ' + show(ev.args[0])] = 'moved'
        elif ev.kind in ('enter', 'call') and re.search(r'stlab::future::(future|operator=)$', ev.q):
            v = obj(d, ev.args[1]) if len(ev.args) == 2 else 'empty'
            if v is not None:
                d['o ' + show(ev.args[0])] = v
        elif ev.kind == 'assume' and ev.args and ev.val is not None and ev.val.k == 'c':
            m = re.match(r'^(!?)\(?(is_ready|valid)\((.*?)\)', show(ev.args[0]))
            if m and d.get('o ' + m.group(3), m.group(3)):
                d[m.group(2) + ' ' + d.get('o ' + m.group(3), m.group(3))] = bool(ev.val.a[0]) != bool(m.group(1))
        st.tr = (frozenset(d.items()),)
    it = Interp(p, on=on, deep=True, throws=lambda e: False, cells=cells,
                inline=lambda g, a, s: not (scope(g.q).endswith('blocking_get_guarded') or re.search(r'stlab::future::(recover|valid|is_ready)$', g.q)))
    n = 0
    for k, r, st in it.run(f):
        if k != 'ret':
            continue
        n += 1
        d = dict(st.tr[0]) if st.tr else {}
        ret = d.get('o agg.result')
        if ret is None:
            continue
        if ret == 'x' and d.get('is_ready x'):
            ck.inst('outer', f.d + ' ready')
        elif ret in ('x', 'moved'):
            ck.find('outer', 'x', 'await_for returns the future that it was given though it is not known to be ready', f.d[:120])
        elif ret in ('hold', 'result'):
            ck.inst('outer', f.d + ' ' + ret)
            if ret == 'hold' and d.get('valid result') is not False:
                ck.find('outer', 'lost', 'await_for: a result that came in time is not returned', f.d[:120])
            if ret == 'result' and d.get('valid result') is not True:
                ck.find('outer', 'empty', 'await_for: an empty future is returned when the wait times out', f.d[:120])
        else:
            ck.find('outer', 'empty', 'await_for: neither the result nor the future that will hold it is returned', f.d[:120])
    return n


def waiting(ck, p, f):
    """await: the value is taken only from a future that was seen to be ready; what wakes the waiter is kept until then"""
    def on(ev, st):
        d = dict(st.tr[0]) if st.tr else {}
        if ev.kind == 'call' and last(ev.q) == 'recover' and ev.extra is not None:
            d['hold'] = show(ev.extra)
        elif ev.kind == 'cvwait' or (ev.kind == 'call' and re.search(r'condition_variable::wait', ev.q)):
            if not d.get('replaced'):
                ck.find('wait', 'idle', 'await: the thread waits and no other thread is woken or added before', ev.where(), common.trail(ev))
            if d.get('dropped'):
                ck.find('wait', 'dropped', 'await: the continuation that wakes the waiter is given up before the wait', ev.where(), common.trail(ev))
            d['waited'] = 1
            for x in [x for x in d if x.startswith('ready ')]:
                del d[x]
        elif ev.kind in ('enter', 'call') and (last(ev.q) in ('add_thread',) or (last(ev.q) == 'wake' and 'task_system' in ev.q)):
            d['replaced'] = 1
        elif ev.kind == 'assume' and ev.args and ev.val is not None and ev.val.k == 'c':
            m = re.match(r'^(!?)\(?is_ready\((.*?)\)', show(ev.args[0]))
            if m:
                if bool(ev.val.a[0]) != bool(m.group(1)):
                    d['ready ' + m.group(2)] = 1
                else:
                    d.pop('ready ' + m.group(2), None)
        elif ev.kind in ('call', 'enter') and re.search(r'stlab::future::detach$', ev.q):
            d.pop('hold', None)
        elif ev.kind in ('call', 'enter', 'dtor') and re.search(r'stlab::future::(~future|reset|operator=)$', ev.q) and show(ev.args[0]) == d.get('hold'):
            d['dropped'] = 1
        if ev.kind in ('enter', 'call') and re.search(r'stlab::future::get_(ready|try)$', ev.q):
            n = show(ev.args[0])
            ck.inst('get', '%s %s' % (f.d, n))
            if not d.get('ready ' + n):
                ck.find('wait', 'get', 'await: the value of a future is taken that is not known to be ready', ev.where(), common.trail(ev))
        st.tr = (frozenset(d.items()),)
    it = Interp(p, on=on, deep=True, throws=lambda e: False, cells=cells,
                inline=lambda g, a, s: not re.search(r'stlab::future::(recover|then|valid|is_ready|get_ready|get_try)$', g.q))
    n = 0
    for k, r, st in it.run(f):
        n += k == 'ret'
    ck.inst('wait', f.d)
    return n


def gone(ck, p, f):
    """the continuation of await_for: when the waiter is gone the result goes on to whoever has the future"""
    def on(ev, st):
        d = dict(st.tr[0]) if st.tr else {}
        if ev.kind == 'call' and last(ev.q) == 'lock' and 'weak_ptr' in ev.q and ev.res is not None:
            d['lk'] = show(ev.res)
        elif ev.kind == 'assume' and ev.args and ev.val is not None and ev.val.k == 'c' and d.get('lk') and 'lk' in d and d['lk'] in show(ev.args[0]):
            d['alive'] = bool(ev.val.a[0]) != show(ev.args[0]).startswith('!')
        elif ev.kind in ('enter', 'call') and scope(ev.q).endswith('blocking_get_guarded'):
            d['set'] = 1
            if not d.get('alive'):
                ck.find('gone', 'dead', 'await_for: the state of the waiter is used without knowing that it still exists', ev.where(), common.trail(ev))
        elif ev.kind in ('enter', 'call') and re.search(r'stlab::future::future$', ev.q) and show(ev.args[0]) == 'agg.result':
            d['ret'] = ev.args[1].k if len(ev.args) > 1 else 'empty'
        st.tr = (frozenset(d.items()),)
    it = Interp(p, on=on, deep=True, throws=lambda e: False, cells=cells, inline=lambda g, a, s: not scope(g.q).endswith('blocking_get_guarded'))
    n = 0
    for k, r, st in it.run(f):
        if k != 'ret':
            continue
        n += 1
        d = dict(st.tr[0]) if st.tr else {}
        if not d.get('set') and d.get('ret') != 'arg':
            ck.find('gone', 'lost', 'await_for: a result that comes after the waiter is gone is not passed on', f.d[:120])
    ck.inst('gone', f.d)
    return n


FORMS = r'stlab::(await|await_for|blocking_get|blocking_get_for)$'


def forms(ck, p, f):
    """the other forms of await and await_for wait once and give what the wait gives"""
    def on(ev, st):
        d = dict(st.tr[0]) if st.tr else {}
        if ev.kind == 'call' and re.search(FORMS, ev.q):
            d['n'] = d.get('n', 0) + 1
            d['to'] = show(ev.extra) if ev.extra is not None else show(ev.res) if ev.res is not None else 'void'
        elif ev.kind == 'call' and last(ev.q) == 'get_try' and ev.extra is not None:
            d['to'] = show(ev.extra)
        st.tr = (frozenset(d.items()),)
    it = Interp(p, on=on, deep=True, throws=lambda e: False, cells=cells, inline=lambda g, a, s: not re.search(FORMS + '|get_try$', g.q))
    n = 0
    for k, r, st in it.run(f):
        if k != 'ret':
            continue
        n += 1
        d = dict(st.tr[0]) if st.tr else {}
        if d.get('n') != 1:
            ck.find('forms', 'wait', '%s waits %s times' % (last(f.q), d.get('n', 0)), f.d[:120])
        elif f.args and f.args[0][0] == 'agg.result' and d['to'] != 'agg.result':
            ck.find('forms', 'lost', '%s does not return what the wait gives' % last(f.q), f.d[:120])
    if not n:
        ck.find('forms', 'lost', '%s ends without returning what the wait gives' % last(f.q), f.d[:120])
    ck.inst('forms', f.d)
    return n


def run(ck):
    p = common.load(ck, ['w_await.cpp'])
    n = 0
    for f in list(p.funcs.values()):
        if re.search(LAM, f.d):
            n += analyse(ck, p, f, 'wake')
        elif f.q == 'stlab::await' and '&&)' in f.d:
            n += waiting(ck, p, f)
        elif f.q == "stlab::await_for::'lambda'::operator()":
            n += gone(ck, p, f)
        elif f.q == 'stlab::invoke_waiting' and 'w::fn' in f.d:
            n += analyse(ck, p, f, 'replace')
        elif f.q == 'stlab::await_for' and '&&,' in f.d:
            n += outer(ck, p, f)
        elif re.search(FORMS, f.q):
            n += forms(ck, p, f)
        elif scope(f.q) == 'stlab::detail::blocking_get_guarded':
            if last(f.q) == 'set':
                n += analyse(ck, p, f, 'set')
            elif last(f.q) == 'wait_for':
                n += analyse(ck, p, f, 'waitfor')
    for r, k in (('wake', 3), ('wait', 3), ('replace', 1), ('set', 3), ('waitfor', 3), ('get', 3), ('outer', 3), ('gone', 3)):
        ck.require(r, k)
    ck.cov['paths'] = n
    return ck.finish('Every path of await, await_for, the continuations that wake them and invoke_waiting: a value is taken only from a future known to be '
                     'ready; the result is stored and the waiter woken under its mutex, and nothing of the waiter is used after that; the timeout and the '
                     'result are decided under one mutex; a thread is woken or added before one waits.')
