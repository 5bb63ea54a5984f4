"""P01: a progress tracker counts what it tracks.

Linear accounting, as in C01: a tracked function holds one unit of the number of tasks of the tracker that it refers to. On every
path of every operation: units held before + added - dropped = units held after, unless the tracker was found to be gone.
"""
import re

import common
from absint import Interp, T, mk, show
from build import Broken

UNIT = 'w_progress.cpp'
FILE = 'include/stlab/concurrency/progress.hpp'
# operation -> (clients before, clients after)
OPS = {'default': ([], ['r']), 'copy': (['c'], ['r', 'c']), 'move': (['c'], ['r', 'c']), 'copy_assign': (['r', 'c'], ['r', 'c']),
       'move_assign': (['r', 'c'], ['r', 'c']), 'copy_self': (['r'], ['r']), 'move_self': (['r'], ['r']), 'destroy': (['r'], []),
       'call': (['c'], ['c'])}


def strip(t):
    while isinstance(t, T) and t.k in ('d', 'lk', 'ptrh'):
        t = t.a[0]
    return t


def field(p, cls, ty):
    r = {f[0] for t in p.types.values() if t['n'].split('<')[0].endswith(cls) for f in t['f'] if ty in f[1]}
    if len(r) != 1:
        raise Broken('the %s of %s is not found' % (ty, cls))
    return r.pop()


def fn(p, n):
    r = [f for f in p.funcs.values() if f.q == 'w::' + n]
    if not r:
        raise Broken('witness function %s is not found' % n)
    return r[0]


def run(ck):
    p = common.load(ck, [UNIT])
    weak = field(p, 'tracker_client', 'weak_ptr')
    C = 'stlab::detail::tracker_client'

    def find(rule, construct, what, path=()):
        ck.find(rule, construct, what, FILE, list(path))

    def interp(n, on, env=None, arg=False):
        f = fn(p, n)
        args = [mk('arg', i, a[0]) if arg else mk('al', a[0] or str(i), site=('root', i)) for i, a in enumerate(f.args)]
        return args, [x for x in Interp(p, on=on, dup=9).run(f, args=args, env=env or {})]

    # what steps() and completed() read
    names = {}
    for n in ('steps', 'completed'):
        def on(ev, st):
            if ev.kind == 'load' and ev.args[0].k == 'fld':
                st.tr = st.tr + (ev.args[0].a[2],)
        args, outs = interp(n, on)
        r = set()
        for k, v, s in outs:
            r.add(v.a[0].a[2] if k == 'ret' and isinstance(v, T) and v.k in ('ld', 'd') and v.a[0].k == 'fld' else None)
        if len(r) != 1 or None in r:
            raise Broken('the counter that %s() gives is not found' % n)
        names[n] = r.pop()
        ck.inst('counter', n)
    if names['steps'] == names['completed']:
        find('counters', 'progress_tracker', 'steps() and completed() give the same counter')
    N, D = names['steps'], names['completed']

    def note(ev, st):
        if ev.kind in ('rmw', 'store') and ev.args[0].k == 'fld' and ev.args[0].a[2] in (N, D) and ev.args[0].a[0].k != 'al':
            d = None
            v = ev.val
            if ev.kind == 'rmw' and v is not None and v.k == 'bin':
                i = next((x.a[0] for x in v.a if isinstance(x, T) and x.k == 'c'), None)
                if 'add' in v.a and isinstance(i, int):
                    d = i
                elif 'sub' in v.a and isinstance(i, int):
                    d = -i
            st.tr = st.tr + ((('n' if ev.args[0].a[2] == N else 'd'), strip(ev.args[0].a[0]), d),)
        elif ev.kind == 'assume':
            t, pos = ev.args[0], bool(ev.val.a[0])
            while t.k == 'not':
                t, pos = t.a[0], not pos
            if t.k == 'bool' and isinstance(t.a[0], T) and t.a[0].k == 'lk':
                st.tr = st.tr + (('live' if pos else 'gone', strip(t.a[0])),)
            elif t.k == 'cmp' and t.a[0] == 'eq' and all(isinstance(x, T) and x.k == 'al' for x in t.a[1:]):
                if pos != (t.a[1] is t.a[2]):
                    st.tr = st.tr + (('impossible',),)      # different objects at the same place
            elif t.k == 'cmp' and t.a[0] == 'eq' and any(x.k == 'lk' for x in t.a[1:]):
                st.tr = st.tr + (('gone' if pos else 'live', strip(next(x for x in t.a[1:] if x.k == 'lk'))),)
            elif t.k == 'bool':
                st.tr = st.tr + (('set' if pos else 'unset', t.a[0]),)
        elif ev.kind == 'user' and ev.q == 'w::work::operator()':
            st.tr = st.tr + (('work', tuple(show(a) for a in ev.args)),)
        elif ev.kind == 'user' and ev.q == 'std::function::operator()':
            st.tr = st.tr + (('signal', tuple(ev.args)),)
        elif ev.kind == 'call' and ev.q == 'std::weak_ptr::lock':
            st.tr = st.tr + (('lock', strip(ev.args[0])),)
        elif ev.kind == 'user' and ev.q.startswith('w::work::work') and len(ev.args) == 2:
            st.tr = st.tr + (('f', show(ev.args[0]), show(ev.args[1])),)

    for op, (before, after) in OPS.items():
        f = fn(p, 'op_' + op)
        al = {a[0]: mk('al', a[0], site=('root', i)) for i, a in enumerate(f.args)}
        env, h = {}, {}
        for c in before:
            h[c] = mk('h', c)
            env[mk('fld', al[c], C, weak)] = h[c]
        args, outs = interp('op_' + op, note, env)
        for k, v, s in outs:
            ck.inst('path', '%s %s' % (op, k))
            facts = list(s.tr)
            if ('impossible',) in facts:
                continue
            gone = {x[1] for x in facts if x[0] == 'gone'}
            path = ['%s' % (x,) for x in facts][:12]
            what = 'op_' + op
            aft = after if k == 'ret' else before
            if k == 'unwind' and op == 'default':
                continue
            held = [s.env.get(mk('fld', al[c], C, weak)) for c in aft]
            for u in set(h.values()):
                if u in gone:
                    continue
                b = sum(1 for c in before if h[c] is u)
                a = sum(1 for x in held if x is not None and strip(x) is u)
                ds = [x[2] for x in facts if x[0] == 'n' and x[1] is u]
                if None in ds:
                    find('units', 'tracker_client ' + op, '%s: the number of tasks is not changed by an atomic addition' % op.replace('_', ' '), path)
                elif b + sum(ds) != a:
                    find('units', 'tracker_client ' + op, '%s: %d tracked function(s) before, %+d, but %d after' % (op.replace('_', ' '), b, sum(ds), a), path)
            for x in facts:
                if x[0] == 'n' and x[1] not in h.values():
                    find('units', 'tracker_client ' + op, '%s: the number of tasks of another tracker changes' % op.replace('_', ' '), path)
                if x[0] == 'd' and op != 'call':
                    find('done', 'tracker_client ' + op, '%s: counts as a completed call' % op.replace('_', ' '), path)
            # which tracker each one belongs to
            if k == 'ret':
                want = {'copy': {'r': 'c', 'c': 'c'}, 'move': {'r': 'c', 'c': None}, 'copy_assign': {'r': 'c', 'c': 'c'}, 'move_assign': {'r': 'c'},
                        'copy_self': {'r': 'r'}, 'move_self': {'r': 'r'}, 'call': {'c': 'c'}}.get(op, {})
                for c, o in want.items():
                    x = s.env.get(mk('fld', al[c], C, weak))
                    if o is None:
                        continue
                    if x is None or strip(x) is not h[o]:
                        find('tracker', 'tracker_client ' + op, '%s: the result does not belong to the tracker of the original' % op.replace('_', ' '), path)
            if op == 'call':
                call(find, h['c'], k, facts, path, N, D)
    # tracking adds one unit to the tracker
    f = fn(p, 'op_track')
    args, outs = interp('op_track', note)
    for k, v, s in outs:
        ck.inst('track', k)
        ds = [x for x in s.tr if x[0] == 'n']
        if k == 'ret' and (len(ds) != 1 or ds[0][2] != 1):
            find('units', 'progress_tracker', 'a new tracked function adds %s instead of one task' % (sum(x[2] or 0 for x in ds)), ['%s' % (x,) for x in s.tr])
        x = s.env.get(mk('fld', args[0], C, weak))
        if k == 'ret' and (x is None or ds and strip(x) is not ds[0][1]):
            find('tracker', 'progress_tracker', 'a new tracked function does not belong to the tracker that counts it')
    # a new tracker counts nothing; it has the callback that it was given
    S = 'stlab::detail::tracker_server'
    for n in ('sv_default', 'sv_make'):
        def on(ev, st):
            if ev.kind == 'call' and ev.q == 'std::function::function':
                st.tr = st.tr + (('f', tuple(show(a) for a in ev.args)),)
            if ev.kind == 'store' and ev.args[0].k == 'fld' and ev.args[0].a[2] in (N, D):
                st.tr = st.tr + ((ev.args[0].a[2], ev.val),)
        args, outs = interp(n, on, arg=True)
        for k, v, s in outs:
            if k != 'ret':
                continue
            ck.inst('new', n)
            for c in (N, D):
                x = [t[1] for t in s.tr if t[0] == c]
                if not x or x[-1].k != 'c' or x[-1].a[0] != 0:
                    find('new', 'tracker_server', 'a new tracker does not begin with zero')
            if n == 'sv_make':
                src, got = {show(args[1])}, False
                for t in s.tr:
                    if t[0] == 'f' and len(t[1]) == 2 and t[1][1] in src:
                        src.add(t[1][0])
                        got = got or t[1][0].startswith(show(args[0]) + '.')
                if not got:
                    find('new', 'tracker_server', 'a new tracker does not keep its callback')
    for n in ('tr_default', 'tr_make'):
        def on(ev, st):
            if ev.kind == 'call' and ev.q == 'std::make_shared':
                st.tr = st.tr + (('made', tuple(show(a) for a in ev.args)),)
            if ev.kind == 'call' and ev.q == 'std::function::function':
                st.tr = st.tr + (('f', tuple(show(a) for a in ev.args)),)
        args, outs = interp(n, on)
        for k, v, s in outs:
            if k != 'ret':
                continue
            ck.inst('new', n)
            src = {'f'}
            for t in s.tr:
                if t[0] == 'f' and len(t[1]) == 2 and t[1][1] in src:
                    src.add(t[1][0])
            made = [t[1] for t in s.tr if t[0] == 'made']
            if len(made) != 1:
                find('new', 'progress_tracker', 'a new tracker does not make its own counters')
            elif n == 'tr_make' and (len(made[0]) != 1 or made[0][0] not in src):
                find('new', 'progress_tracker', 'a new tracker does not keep its callback')
    if not ck.findings:
        for r, n in (('path', 11), ('counter', 2), ('track', 1), ('new', 4)):
            ck.require(r, n)
    ck.assumptions.append('std::atomic, std::weak_ptr and std::function behave as specified; moving a user function does not throw')
    return ck.finish('Linear accounting of units on every path of every operation of a tracked function: units before + added - dropped = units after, each '
                     'of the tracker it belongs to; a call counts once, after it returned, and then tells the callback both counts.')


def call(find, h, k, facts, path, N, D):
    work = [i for i, x in enumerate(facts) if x[0] == 'work']
    done = [(i, x) for i, x in enumerate(facts) if x[0] == 'd']
    sig = [(i, x) for i, x in enumerate(facts) if x[0] == 'signal']
    gone = any(x[0] == 'gone' and x[1] is h for x in facts)
    live = any(x[0] == 'live' and x[1] is h for x in facts)
    w = 'tracker_client call'
    if len(work) != 1:
        find('call', w, 'the function is called %d times' % len(work), path)
        return
    if 'c.' not in facts[work[0]][1][0] or facts[work[0]][1][-1] != 'v':
        find('call', w, 'the function is not called with the arguments', path)
    if k == 'unwind' and not sig:
        if done:
            find('done', w, 'a call that ends with an exception counts as completed', path)
        return
    n = sum(x[2] if x[2] is not None else 99 for i, x in done)
    if any(x[1] is not h for i, x in done):
        find('done', w, 'the call counts for another tracker', path)
    if n != (0 if gone else 1):
        find('done', w, 'the call counts %d times' % n if n < 50 else 'the count of completed calls is not changed by an atomic addition', path)
    if done and done[0][0] < work[0]:
        find('done', w, 'the call counts as completed before it is', path)
    isset = any(x[0] == 'set' for x in facts)
    unset = any(x[0] == 'unset' for x in facts)
    if gone:
        if sig:
            find('signal', w, 'the callback of a tracker that is gone is called', path)
        return
    if sig and not isset:
        find('signal', w, 'the callback is called without a test whether there is one', path)
    if len(sig) != (0 if unset else 1):
        find('signal', w, 'the callback is called %d times after a call' % len(sig), path)
    for i, x in sig:
        a = x[1][1:]
        if done and i < done[0][0]:
            find('signal', w, 'the callback is called before the call was counted', path)
        flds = [y.a[0].a[2] if isinstance(y, T) and y.k in ('ld', 'd') and y.a[0].k == 'fld' else None for y in a]
        if flds != [N, D]:
            find('signal', w, 'the callback is not given the number of tasks and the number of completed calls', path)
