"""E08: pre-exit handlers run once each, last registered first, with the stack released; the task system is joined from there."""
import re

import common
from absint import mk, root, show
from names import last, scope
from taskflow import cont_of, elem_type, elt_of

SEQ = ('std::vector', 'std::deque', 'std::list')


def run(ck):
    p = common.load(ck, common.ALL_UNITS)
    pre = [f for f in p.funcs.values() if f.q == 'stlab_pre_exit']
    reg = [f for f in p.funcs.values() if f.q == 'stlab_at_pre_exit']
    ends = set()

    def mkon(res, fn):
        key = 'pre_exit'

        def find(kind, text, ev):
            res.find(kind, key, text, '%s:%s' % (ev.file, ev.line), common.trail(ev))

        def on(ev, st):
            d = dict(st.tr[0]) if st.tr else {}
            o = dict(d)
            k, q = ev.kind, ev.q or ''
            if k == 'lock':
                d.pop('e', None)
            if k == 'assume':
                t, v = ev.args[0], bool(ev.val.a[0])
                while t.k == 'not':
                    t, v = t.a[0], not v
                b = t.a[0] if t.k == 'bool' else t
                if b.k == 'res' and last(b.a[0]) == 'empty' and ev.locks:
                    d['e'] = v
                if b.k == 'cmp' and b.a[0] == 'eq' and v and b.a[1].k == 'ld' and elt_of(b.a[1].a[0]) is not None:
                    d['null'] = 1       # a null pointer was registered: out of contract
            elif q and scope(q) in SEQ and ev.args:
                ln = last(q)
                if ln in ('back', 'front', 'rbegin', 'begin'):
                    d['pos'] = ln
                elif ln in ('pop_back', 'pop_front', 'erase'):
                    res.inst('remove', '%s:%s' % (ev.file, ev.line))
                    if not ev.locks:
                        find('unlocked', 'a handler is removed without holding the stack', ev)
                    if not d.get('val'):
                        find('lost', 'a handler is removed without being read', ev)
                    if d.get('got'):
                        find('lost', 'a handler is removed although the previous one was not run yet', ev)
                    if {'back': 'pop_back', 'front': 'pop_front', 'begin': 'pop_front', 'rbegin': 'pop_back'}.get(d.get('pos')) != ln and ln != 'erase':
                        find('mismatch', 'the handler that is removed is not the one that was read', ev)
                    res.x.setdefault('take', set()).add(ln if ln != 'erase' else 'pop_front' if d.get('pos') in ('front', 'begin') else 'pop_back')
                    d['got'] = 1
                    d.pop('val', None)
                elif ln in ('clear', 'resize'):
                    find('lost', 'handlers are discarded', ev)
            elif k == 'load' and elt_of(ev.args[0]) is not None:
                if d.get('val'):
                    pass
                d['val'] = 1
            elif k == 'unlock':
                if d.get('val') and not d.get('got'):
                    find('not-removed', 'a handler is read and stays registered: it is run again', ev)
                d.pop('val', None)
            elif k == 'icall':
                res.inst('run', '%s:%s' % (ev.file, ev.line))
                if ev.locks:
                    find('locked', 'a handler is run while the stack is locked: registering a handler from it deadlocks', ev)
                if not d.get('got'):
                    find('twice', 'a handler is run twice, or without having been removed first', ev)
                d.pop('got', None)
            elif k == 'store' and ev.val is not None and ev.val.k == 'c' and ev.val.a[0] == 1 and ev.args[0].k == 'fld':
                if ev.args[0].a[-1] == '_closed' or 'clos' in str(ev.args[0].a[-1]):
                    res.inst('close', '%s:%s' % (ev.file, ev.line))
                    if not d.get('e'):
                        find('closed', 'the stack is closed without having been seen empty in the same critical section', ev)
            if d != o:
                st.tr = (frozenset(d.items()),)
        return on

    def after(res, fn, outs):
        res.inst('pre_exit', fn.m)
        for k, r, st in outs:
            if k != 'ret':
                continue
            d = dict(st.tr[0]) if st.tr else {}
            if d.get('null'):
                continue
            if d.get('got'):
                res.find('lost', 'pre_exit', 'a handler that was removed is not run', '%s:%s' % (fn.file, fn.line))
            if not d.get('e'):
                res.find('early', 'pre_exit', 'pre_exit() can end without having seen the stack empty', '%s:%s' % (fn.file, fn.line))
        for t in res.x.pop('take', ()):
            res.inst('end', t)
    common.scan(ck, p, None, mkon, after=after, fns=pre, throws=lambda e: False)

    def mkon2(res, fn):
        def on(ev, st):
            q = ev.q or ''
            if q and scope(q) in SEQ and last(q) in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace'):
                n = dict(st.tr[0]).get('n', 0) if st.tr else 0
                st.tr = (frozenset({'n': min(2, n + 1)}.items()),)
                res.inst('register', '%s:%s' % (ev.file, ev.line))
                res.inst('push', last(q))
                v = st.env.get(ev.args[1])
                v = ev.args[1] if v is None else v
                if v.k != 'arg':
                    res.find('wrong', 'at_pre_exit', 'what is registered is not the handler that was passed', '%s:%s' % (ev.file, ev.line))
        return on

    def after2(res, fn, outs):
        for k, r, st in outs:
            if k == 'ret':
                n = dict(st.tr[0]).get('n', 0) if st.tr else 0
                if n != 1:
                    res.find('registered', 'at_pre_exit', 'a handler is registered %s' % ('twice' if n else 'on no path'), '%s:%s' % (fn.file, fn.line))
    common.scan(ck, p, None, mkon2, after=after2, fns=reg, throws=lambda e: False)
    for a in ck.instances.get('push', ()):
        for b in ck.instances.get('end', ()):
            if ('front' in a) != ('front' in b):
                ck.find('order', 'pre_exit', 'handlers are not run in the reverse order of their registration (%s, %s)' % (a, b), '')

    system(ck, p)
    for k, n in (('pre_exit', 1), ('remove', 1), ('run', 1), ('close', 1), ('register', 1), ('joins', 1), ('done', 2), ('join', 1)):
        ck.require(k, n)
    return ck.finish('Typestate of the handler stack over every path of pre_exit() and at_pre_exit(); the creation of the task system registers a '
                     'handler that joins it; every queue and waiter is told to end before the first thread is joined.')


def system(ck, p):
    PTS = 'stlab::detail::priority_task_system'
    recs = p.by_tname.get(PTS, [])
    ctrs = {}
    for r in recs:
        for f in r['f']:
            m = re.match(r'std::vector<(stlab::(?:v\d_\d_\d::)?[\w:]+)', f[1])
            if not m:
                continue
            cn = re.sub(r'stlab::v\d_\d_\d::', 'stlab::', m.group(1))
            if any('condition_variable' in g[1] for r2 in p.by_tname.get(cn, []) for g in r2['f']):
                ctrs[(PTS, f[0])] = cn
                ck.inst('ending', f[0])
    pts = [f for f in p.funcs.values() if f.q == 'stlab::detail::pts']

    def mkon(res, fn):
        def on(ev, st):
            d = dict(st.tr[0]) if st.tr else {}
            q = ev.q or ''
            if ev.kind == 'assume' and '__cxa_guard_acquire' in show(ev.args[0]):
                t, v = ev.args[0], bool(ev.val.a[0])
                while t.k == 'not':
                    t, v = t.a[0], not v
                if (not v if t.k == 'cmp' and t.a[0] == 'eq' else v) and not any(f.q != fn.q and 'pts' not in f.q for _, f, _ in ev.stack):
                    d['create'] = 1
            if q == 'stlab_at_pre_exit' and ev.kind in ('call', 'enter', 'user'):
                d['reg'] = min(2, d.get('reg', 0) + 1)
                h = ev.args[0]
                h = st.env.get(h, h)
                if h.k == 'g':
                    joins(ck, p, h, res)
                else:
                    res.inst('joins', 'unknown')
            if d:
                st.tr = (frozenset(d.items()),)
        return on

    def after(res, fn, outs):
        for k, r, st in outs:
            d = dict(st.tr[0]) if st.tr else {}
            if k == 'ret' and 'create' in d and d.get('reg', 0) == 0:
                res.find('not-joined', 'pts', 'the task system is created without registering a pre-exit handler for it',
                         '%s:%s' % (fn.file, fn.line))
            if k == 'ret' and d.get('reg', 0) > 1:
                res.find('not-joined', 'pts', 'the pre-exit handler of the task system is registered twice', '%s:%s' % (fn.file, fn.line))
    common.scan(ck, p, None, mkon, after=after, fns=pts, throws=lambda e: False)
    jn = [f for f in p.funcs.values() if f.q == PTS + '::join']

    def mkon3(res, fn):
        def find(kind, text, ev):
            res.find(kind, 'task system join', text, '%s:%s' % (ev.file, ev.line), common.trail(ev))

        def ctr(t):
            while t is not None and t.k in ('fld', 'elt', 'it', 'ld'):
                if t.k == 'fld' and (t.a[1], t.a[2]) in ctrs:
                    return t.a[2]
                t = t.a[0]
            return None

        def on(ev, st):
            d = dict(st.tr[0]) if st.tr else {}
            o = dict(d)
            q = ev.q or ''
            if ev.args and q and scope(q) in SEQ and ctr(ev.args[0]) and last(q) in ('begin', 'end', 'size', 'operator[]', 'data', 'cbegin'):
                c = ctr(ev.args[0])
                d[('lp', c)] = 1
                d['cur'] = c
            if ev.kind == 'assume':
                t, v = ev.args[0], bool(ev.val.a[0])
                while t.k == 'not':
                    t, v = t.a[0], not v
                b = t.a[0] if t.k == 'bool' else t
                if b.k == 'res' and last(b.a[0]) in ('operator==', 'operator!='):
                    if v == (last(b.a[0]) == 'operator!=') and d.get('cur'):
                        d[('it', d['cur'])] = 1
            if ev.kind == 'store' and ctr(ev.args[0]) and ev.args[0].k == 'fld' and ev.val is not None and ev.val.k == 'c' and ev.val.a[0] == 1:
                d[('dn', ctr(ev.args[0]))] = 1
                res.inst('done', ctr(ev.args[0]))
            if q == 'std::thread::join':
                res.inst('join', '%s:%s' % (ev.file, ev.line))
                if ev.locks:
                    find('locked', 'a thread is joined while the lock is held that a running task needs to add a thread', ev)
                for _, c in ctrs:
                    if not d.get(('lp', c)) or d.get(('it', c)) and not d.get(('dn', c)):
                        find('hang', 'a thread is joined before every element of %s was told to end' % c, ev)
            if d != o:
                st.tr = (frozenset(d.items()),)
        return on
    common.scan(ck, p, None, mkon3, fns=jn, throws=lambda e: False)


def joins(ck, p, g, res):
    """the handler (a function) joins the task system"""
    name = g.a[0]
    f = p.funcs.get(name)
    res.inst('joins', name)
    todo, seen = [name], set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for m, cs in p.callers.items():
            if n in cs:
                if p.funcs.get(m) is not None and p.funcs[m].q == 'stlab::detail::priority_task_system::join':
                    return
                if m in p.funcs:
                    todo.append(m)
    if f is not None:
        res.find('not-joined', 'pts', 'the pre-exit handler of the task system does not join it', '%s:%s' % (f.file, f.line))
