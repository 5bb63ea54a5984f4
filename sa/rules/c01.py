"""C01: senders and receivers are counted exactly.

A handle (sender, receiver) holds one unit of the process that it refers to (a receiver only until it is set ready). For
every function that deals with handles, on every path: units held before + add_* - remove_* = units held after. The
counters of the process start with the number of handles that are made with it and are changed by one per call.
"""
import itertools
import re

import common
from absint import Interp, T, mk, show, NULL, FALSE, TRUE
from names import last, scope
from roots import roots

S, R = 'stlab::sender', 'stlab::receiver'
PROC = 'stlab::detail::shared_process'
KINDS = {'S': ('add_sender', 'remove_sender', '_sender_count'), 'R': ('add_receiver', 'remove_receiver', '_receiver_count')}


def strip(t):
    """the process that a handle value or a pointer denotes"""
    while isinstance(t, T) and t.k in ('d', 'lk', 'ptrh'):
        t = t.a[0]
    return t


def ctor_of(p, m):
    """constructors of the process that a make_shared call reaches"""
    if getattr(p, '_callees', None) is None:
        d = {}
        for c, cs in p.callers.items():
            for x in cs:
                d.setdefault(x, set()).add(c)
        p._callees = d
    seen, todo, out = {m}, [m], set()
    while todo:
        x = todo.pop()
        for c in p._callees.get(x, ()):
            if c in seen:
                continue
            seen.add(c)
            f = p.funcs.get(c)
            if f is not None and f.q == PROC + '::shared_process':
                out.add(c)
            elif f is None or f.q.startswith(('std::', '__gnu', 'operator', 'void')) or scope(f.q).startswith('std::'):
                todo.append(c)
    return out


def initial(p, m):
    """(sender count, receiver count) that the constructor stores"""
    f = p.funcs[m]
    res = set()

    def ctor(ev, st):
        fl = fld(ev.args[0]) if ev.args else ''
        if fl in (PROC + '._sender_count', PROC + '._receiver_count') and ev.kind == 'store':
            st.tr = st.tr + ((fl[len(PROC) + 1:], ev.val),)
    args = [mk('arg', i, a[0]) for i, a in enumerate(f.args)]
    for k, r, s in Interp(p, on=ctor, throws=lambda e: False, dup=9).run(f, args=args):
        d = {'_sender_count': None, '_receiver_count': None}
        for n, v in s.tr:
            d[n] = v.a[0] if v.k == 'c' else None
        res.add((d['_sender_count'], d['_receiver_count']))
    return (res.pop() if len(res) == 1 else (None, None)) + (result_of(f)[0] == 'void',)


def fld(t):
    return '%s.%s' % (t.a[1], t.a[2]) if isinstance(t, T) and t.k == 'fld' else ''


def handles(env, roots_):
    """(address of the handle, kind, value, ready flag) of the handles below the given objects"""
    out = []
    for k, v in env.items():
        if k.k == 'fld' and k.a[2] == '_p' and k.a[1] in (S, R) and top(k) in roots_:
            out.append((k.a[0], 'S' if k.a[1] == S else 'R', v, env.get(mk('fld', k.a[0], R, '_ready'))))
    return out


def top(t):
    while t.k in ('fld', 'elt'):
        t = t.a[0]
    return t


def run(ck):
    p = common.load(ck, ['w_channel.cpp'])
    new_fns = [f for f in p.funcs.values() if f.q.startswith('stlab::') and not f.q.startswith('stlab::detail::shared_process')]
    fns = []
    for f in new_fns:
        sc = scope(f.q)
        if "'lambda" in f.q:
            continue
        if sc in (S, R) or f.q in ('stlab::swap',) or f.q in ('stlab::detail::channel_::create', 'stlab::detail::channel_combiner::merge_helper') \
                or (f.q.startswith('stlab::') and makes_process(p, f)):
            fns.append(f)
    inits = {}
    for f in p.funcs.values():
        if f.q == PROC + '::shared_process':
            inits[f.m] = initial(p, f.m)

    def one(f):
        res = common.Res()
        res.count('entry_points')
        account(p, f, inits, res)
        return res
    common.merge(ck, common.pmap(one, sorted(fns, key=lambda f: f.m)))
    counters(ck, p)
    ck.require('handle-operation', 14)
    ck.require('process-made', 20)
    ck.require('counter', 4)
    ck.assumptions.append('the standard smart pointers, std::swap of handles (move construction and assignment) and deque behave as specified')
    return ck.finish('Linear accounting of handle units on every path of every function of sender and receiver and of every function that '
                     'creates a process: units before + added - removed = units after; initial counts equal the handles created; each '
                     'call changes the counter by one.')


def makes_process(p, f):
    if getattr(p, '_mkp', None) is None:
        s = set()
        for m, cs in p.callers.items():
            d = p.dem(m)
            if 'std::make_shared<stlab::detail::shared_process<' in d:
                s |= set(cs)
        p._mkp = s
    return f.m in p._mkp


def params(f, n):
    """types of the first n parameters, this included"""
    d = f.d
    d = re.sub(r'( const| &&?|&&?| noexcept)+$', '', d)
    i, dep, out = len(d) - 1, 0, []
    if not d.endswith(')'):
        return [''] * n
    cur = ''
    while i >= 0:
        c = d[i]
        if c in ')>':
            dep += 1
        elif c in '(<':
            dep -= 1
        if dep == 0:
            out.append(cur)
            break
        if c == ',' and dep == 1:
            out.append(cur)
            cur = ''
        elif not (dep == 1 and c == ')' and i == len(d) - 1):
            cur = c + cur
        i -= 1
    out = [x.strip() for x in reversed(out) if x.strip()]
    if f.args and any(a[0] == 'this' for a in f.args):
        out.insert(0, scope(f.q) + '<')
    return (out + [''] * n)[:n] if len(out) == n else [x if i == 0 and x else '' for i, x in enumerate((out + [''] * n)[:n])]


def account(p, f, inits, res):
    sc, ln = scope(f.q), last(f.q)
    cls = sc if sc in (S, R) else ''
    ctor = cls and ln == cls[cls.rfind('::') + 2:]
    dtor = ln.startswith('~') and cls
    args, env, before = [], {}, []
    sret = [a[0] for a in f.args if 'agg.result' in (a[0] or '')]
    ts = params(f, len(f.args) - len(sret))
    for i, a in enumerate(f.args):
        nm = '%s%s' % (a[0] or 'arg', '' if a[0] == 'this' else i)
        t = mk('al', nm, site=('root', i))
        args.append(t)
        if a[0] in sret:
            continue
        ty = ts.pop(0)
        if ctor and i == 0:
            continue
        for c in (S, R):
            if not ty.startswith(c + '<'):
                continue
            h, r = mk('h', nm), None
            env[mk('fld', t, c, '_p')] = h
            if c == R:
                r = mk('hr', nm)
                env[mk('fld', t, R, '_ready')] = r
            before.append(('S' if c == S else 'R', h, r))
    if ctor and len(args) == 2 and not rel.search(f.d[f.d.rfind('('):]):
        return      # a handle made from the process itself: accounted for where the process is made
    news = {}

    def on(ev, st):
        if ev.kind == 'assume':
            t, pos = ev.args[0], bool(ev.val.a[0])
            while t.k == 'not':
                t, pos = t.a[0], not pos
            if t.k == 'hr' or t.k == 'bool' and t.a[0].k == 'hr':
                st.tr = st.tr + (('rdy', t if t.k == 'hr' else t.a[0], pos),)
            elif t.k == 'bool' and not pos:
                st.tr = st.tr + (('null', strip(t.a[0])),)
            elif t.k == 'cmp' and t.a[0] == 'eq' and pos and NULL in (t.a[1], t.a[2]):
                st.tr = st.tr + (('null', strip(t.a[1] if t.a[2] is NULL else t.a[2])),)
        elif ev.kind == 'vcall':
            l = last(ev.q)
            for k, (a, r, _) in KINDS.items():
                if l in (a, r):
                    st.tr = st.tr + ((k, 1 if l == a else -1, strip(ev.args[0])),)
                    return
            if l == 'map':
                for arg in ev.args[1:]:
                    for base, k, v, rd in handles(st.env, {top(arg)}):
                        if base is arg or top(base) is arg:
                            st.tr = st.tr + (('esc', k, strip(v)),)
                            a = mk('fld', base, S if k == 'S' else R, '_p')
                        st.env[a] = NULL
                        st.tr = st.tr + (('null', mk('ld', a)),)     # moved from
        elif ev.kind == 'call' and ev.q in ('std::make_pair', 'std::pair::pair', 'std::make_tuple', 'std::tuple::tuple'):
            for arg in ev.args:         # handles moved into a pair or tuple that is returned
                for base, k, v, rd in handles(st.env, {top(arg)}):
                    if base is arg and v is not NULL and top(base).ctx is not None:
                        st.tr = st.tr + (('esc', k, strip(v)),)
                        a = mk('fld', base, S if k == 'S' else R, '_p')
                        st.env[a] = NULL
                        st.tr = st.tr + (('null', mk('ld', a)),)     # moved from
        elif ev.kind == 'call' and ev.q == 'std::make_shared' and 'stlab::detail::shared_process<' in ev.full:
            cs = ctor_of(p, ev.m)
            ini = {inits.get(c) for c in cs}
            st.tr = st.tr + (('new', ini.pop() if len(ini) == 1 else None),)
            # the handles captured by the process function now belong to the process
            for arg in ev.args:
                for base, k, v, rd in handles(st.env, {top(arg)}):
                    if v is not NULL and top(base).ctx is not None:
                        st.tr = st.tr + (('esc', k, strip(v)),)
                        a = mk('fld', base, S if k == 'S' else R, '_p')
                        st.env[a] = NULL
                        st.tr = st.tr + (('null', mk('ld', a)),)     # moved from
    it = Interp(p, on=on, throws=lambda e: False, dup=9)
    outs = it.run(f, env=env, args=args)
    res.count('abstract_steps', it.steps)
    res.count('paths_at_exit', len(outs))
    name = '%s %s' % (f.q.replace('stlab::', ''), 'copy' if 'const&' in f.d[-12:] else 'move' if f.d.endswith('&&)') else '')
    makes = False
    alive = set(args) - ({args[0]} if dtor else set())
    for kind, ret, s in outs:
        if kind != 'ret':
            continue
        after = handles(s.env, alive)
        procs = {}
        for base, k, v, rd in after:
            if v is not None and v is not NULL and v.k != 'u':
                procs.setdefault((k, strip(v)), []).append(('after', rd))
        seen = {(base, k) for base, k, v, rd in after}
        gone = {h for k, h, r in before for i, t in enumerate(args) if h.a[0] == t.a[0] and (t, k) not in seen and t in alive}
        for k, h, r in before:
            procs.setdefault((k, h), []).append(('before', r))
        for x in s.tr:
            if x[0] in KINDS:
                procs.setdefault((x[0], x[2]), []).append(('count', x[1]))
            elif x[0] == 'esc':
                procs.setdefault((x[1], x[2]), []).append(('after', FALSE))
        nw = [x for x in s.tr if x[0] == 'new']
        made = {v for (k, v) in procs if v.k == 'new'}
        if nw:
            makes = True
            ini = nw[-1][1]
            if len(nw) > 1 or ini is None or len(made) > 1:
                res.find('unknown-process', name, 'the creation of the process is not understood', f.file)
                continue
            for v in made or {mk('new', 'process')}:
                for k, i in (('S', 0), ('R', 1)):
                    if k == 'R' and ini[2]:
                        procs.pop((k, v), None)     # a process without results is not held back by receivers
                        continue
                    procs.setdefault((k, v), []).append(('init', ini[i]))
        for (k, v), l in procs.items():
            if v in gone:       # handed to code that is not analysed
                continue
            if ('null', v) in s.tr:
                continue
            flags = sorted({show(rd) for w, rd in l if w in ('after', 'before') and isinstance(rd, T) and rd.k == 'hr' and truth(s, rd) is None})
            for vals in itertools.product((0, 1), repeat=len(flags)):
                fv = dict(zip(flags, vals))
                n = 0
                unk = False
                for w, x in l:
                    if w == 'count':
                        n += x
                    elif w == 'init':
                        if x is None:
                            unk = True
                        else:
                            n += x
                    else:
                        u = 1
                        if k == 'R' and isinstance(x, T):
                            r = truth(s, x)
                            r = fv.get(show(x)) if r is None else r
                            u = None if r is None else 0 if r else 1
                        if u is None:
                            unk = True
                        else:
                            n += u if w == 'before' else -u
                if unk and n == 0:
                    continue
                if n != 0 or unk:
                    what = 'sender' if k == 'S' else 'receiver'
                    res.find('units', '%s: %s count' % (name.strip(), what),
                             'after %s the %s count of the process of %s is %s the number of its %ss%s' % (
                                 short(f.d), what, show(v), 'not known to be' if unk else 'higher than' if n > 0 else 'lower than',
                                 what, ' (when ready=%s)' % (vals,) if flags else ''),
                             '%s:%s' % (f.file, f.line))
    res.inst('process-made' if makes else 'handle-operation', short(f.d) if makes else name.strip())


rel = re.compile(r'stlab::(sender|receiver)<')


def truth(s, t):
    if t.k == 'c':
        return bool(t.a[0])
    for x in s.tr:
        if x[0] == 'rdy' and x[1] is t:
            return x[2]
    return None


def short(d):
    return re.sub(r'stlab::(detail::)?', '', d)[:150]


def counters(ck, p):
    """each call of add_*/remove_* changes the counter of its process by one, once, on every path"""
    for k, (a, r, c) in KINDS.items():
        for nm, d in ((a, 1), (r, -1)):
            fs = [f for f in p.funcs.values() if last(f.q) == nm and f.q.startswith('stlab::detail::shared_process')]
            for f in sorted(fs, key=lambda f: f.m):
                def on(ev, st):
                    if ev.kind in ('rmw', 'store') and ev.args and ev.args[0].k == 'fld' and ev.args[0].a[2] == c:
                        st.tr = st.tr + ((ev.kind, ev.extra),)
                outs = Interp(p, on=on, throws=lambda e: False, dup=9, inline=lambda g, a, s: last(g.q) not in ('run', 'task_done')).run(f)
                void = any('void' == t for t in result_of(f))
                for kind, ret, s in outs:
                    ch = [x for x in s.tr if x[0] in ('rmw', 'store')]
                    if not ch and k == 'R':
                        ck.inst('counter-void', nm)
                        if void:
                            continue
                    if len(ch) != 1 or ch[0] != ('rmw', d):
                        ck.find('counter', '%s in %s' % (nm, scope(f.q)[15:]), '%s changes the %s count by %s instead of %+d' % (
                            nm, 'sender' if k == 'S' else 'receiver', [x[1] for x in ch] or 'nothing', d), '%s:%s' % (f.file, f.line))
                    ck.inst('counter', nm)


def result_of(f):
    """template arguments of the process class, at top level"""
    m = re.search(r'shared_process(?:_sender_indexed|_sender_helper)?<', f.d)
    i, dep, cur, out = m.end(), 1, '', []
    while dep and i < len(f.d):
        c = f.d[i]
        dep += (c == '<') + (c == '(') - (c == '>') - (c == ')')
        if c == ',' and dep == 1:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        i += 1
    out.append(cur[:-1].strip())
    return out[2:3]
