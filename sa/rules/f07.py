"""F07: a result nobody holds is not computed: only futures keep a result's state alive, and everything a task holds is let go once it has run
or can no longer run."""
import re

import common
from absint import mk, root, show, under
from futures import Roles, is_task_root, user_run
from names import last, scope
from rules.f08 import Origins

STRONG = re.compile(r'\bshared_ptr<(?:class |struct )?stlab::(?:v\w+::)?detail::(?:shared_base|shared_task|shared)\b')
HOLDER = re.compile(r'\bfuture<')
CTXP = re.compile(r'\bshared_ptr<(?:const )?(?:class |struct )?stlab::(?:v\w+::)?detail::(when_all_shared|when_any_shared|context\w*|common_context\w*)\b')
JOIN = ('stlab::when_all', 'stlab::when_any')
SB = 'stlab::detail::shared_base'


def run(ck):
    p = common.load(ck, common.ALL_UNITS)
    R = Roles(p)
    types(ck, p)
    ctxs = contexts(p)
    ck.cov['join_contexts'] = sorted(ctxs)
    rs = common.roots(p)

    def mk1(res, fn):
        return joined(p, ctxs, res, fn)

    def end1(res, fn, outs):
        for k, r, st in outs:
            if k == 'ret' and st.tr and ('pend',) in dict(st.tr[0]):
                res.find('not-held', common.short_fn(fn.q), 'the continuation attached to an input is not kept by the join: it is cancelled at once',
                         '%s:%s' % (fn.file, fn.line), ())
    common.scan(ck, p, None, mk1, fns=[f for f in rs if f.q in JOIN], throws=lambda e: False, after=end1)
    common.scan(ck, p, None, lambda res, fn: attached(R, res, fn), throws=lambda e: False,
                fns=[f for f in rs if re.match(r'stlab::(future::(then|recover|operator[|^])|detail::shared_base::recover)$', f.q)])
    # --- a task lets go of its function
    bodies = [f for f in rs if is_task_root(f)]

    def mk2(res, fn):
        def on(ev, st):
            d = dict(st.tr[0]) if st.tr else {}
            o = dict(d)
            q = ev.q or ''
            if ev.kind in ('user', 'enter') and last(q) == 'operator()' and ev.args and not q.startswith('stlab::detail::'):
                h = holder(ev.args[0])
                if h is not None and h.a[0].k == 'fld':
                    d[('ran', h)] = 1
            if ev.kind == 'call' and scope(q) == 'std::optional' and ev.args:
                if last(q) == 'reset' or last(q) == 'operator=' and ('nullopt' in ev.full):
                    d.pop(('ran', ev.args[0].c), None)
                    d[('rst', ev.args[0].c)] = 1
            if d != o:
                st.tr = (frozenset(d.items()),) if d else ()
        return on

    def end2(res, fn, outs):
        for k, r, st in outs:
            if k != 'ret':
                continue
            d = dict(st.tr[0]) if st.tr else {}
            if any(x[0] in ('ran', 'rst') for x in d):
                res.inst('body', fn.m)
            for x in d:
                if x[0] == 'ran':
                    res.find('kept-function', common.short_fn(fn.q), 'the function of a task, and what it holds, is still there after it has run',
                             '%s:%s' % (fn.file, fn.line), ('entry point ' + fn.d[:200],))
    common.scan(ck, p, None, mk2, fns=bodies, after=end2,
                throws=lambda e: e.kind == 'user' and e.q.startswith('w::') and last(e.q) == 'operator()' and not e.q.startswith('w::exec'))
    # --- a task that cannot run any more lets go of its function
    kills = [f for f in rs if f.q == 'stlab::detail::shared::set_exception']

    def end3(res, fn, outs):
        res.inst('abandoned', fn.m)
        for k, r, st in outs:
            if k == 'ret' and not any(x[0] == 'rst' for x in (dict(st.tr[0]) if st.tr else {})):
                res.find('kept-function', common.short_fn(fn.q), 'the function of a task that will never run is kept', '%s:%s' % (fn.file, fn.line),
                         ('entry point ' + fn.d[:200],))
    common.scan(ck, p, None, mk2, fns=kills, after=end3, throws=lambda e: False)
    for k, n in (('owner', 20), ('queued', 4), ('input', 4), ('held', 4), ('keeps-input', 4), ('join-function', 4), ('body', 8), ('abandoned', 8)):
        ck.require(k, n)
    return ck.finish('Ownership: declared types of every field of every class and closure that can refer to a shared state; capture analysis of the closures '
                     'attached to inputs (no strong reference to the join) on every path of every attaching function; release of the stored function on '
                     'every path of every task body and of every abandonment.')


def types(ck, p):
    """only futures own a state"""
    for tn, ts in sorted(p.by_tname.items()):
        if not tn.startswith('stlab::'):
            continue
        for t in ts:
            for name, ty, off, line in (g[:4] for g in t['f']):
                if STRONG.search(ty):
                    ck.inst('owner', t['n'] + '.' + name)
                    if tn != 'stlab::future':
                        ck.find('owner', tn + '.' + name, 'holds a strong reference to the state of a future (%s); only a future may' % ty[:120],
                                'declared in ' + t['n'][:120])
                elif re.search(r'weak_ptr<.*detail::shared_(base|task)', ty) or HOLDER.search(ty):
                    ck.inst('owner', t['n'] + '.' + name)


def contexts(p):
    """classes that keep the continuations of a join: class -> field"""
    out = {}
    for tn, ts in p.by_tname.items():
        if not tn.startswith('stlab::') or tn.endswith('::'):
            continue
        for t in ts:
            fs = {n: ty for n, ty, o, l in (g[:4] for g in t['f'])}
            h = [n for n, ty in fs.items() if re.match(r'std::(array|vector|deque|list)<(stlab::(v\w+::)?)future<', ty)]
            if h and any('packaged_task<' in ty for ty in fs.values()):
                out[tn] = h[0]
    return out


def holder(t):
    """the optional field this object lives in"""
    t = t.c
    while t.k in ('fld', 'elt', 'd'):
        if t.k == 'fld' and t.a[1] == 'std::optional' or t.k == 'fld' and t.a[-1] == '*':
            return t.a[0].c
        t = t.a[0]
    return None


def inside(t, o):
    t = t.c
    o = o.c
    while True:
        if t is o:
            return True
        if t.k not in ('fld', 'elt'):
            return False
        t = t.a[0].c


def wrap(ev, d):
    """a function object is copied or moved as a whole into another place: what its fields hold is there too"""
    if ev.kind == 'call' and (ev.q in ('std::optional::optional', 'std::make_optional', 'stlab::task_::task_') or ev.q.endswith('::operator=')) and len(ev.args) == 2:
        dst, src = ev.args[0].c, ev.args[1].c
        for x in list(d):
            if len(x) == 2 and x[0] in ('s', 'f') and x[1] is not dst and inside(x[1], src):
                d[(x[0], mk('fld', dst, 'std::optional', 'of', x[1]))] = 1


def joined(p, ctxs, res, fn):
    key = common.short_fn(fn.q)

    def on(ev, st):
        q = ev.q or ''
        w = '%s:%s' % (ev.file, ev.line)
        d = dict(st.tr[0]) if st.tr else {}
        o = dict(d)
        if ev.kind in ('call', 'user') and scope(q) in ('std::shared_ptr', 'std::__shared_ptr') and last(q) in ('shared_ptr', '__shared_ptr') \
                and len(ev.args) >= 2 and refers(ev.full, ctxs):
            d[('s', ev.args[0].c)] = 1
        if ev.kind == 'enter' and q == 'stlab::future::recover' and not any(x[1].q in ('stlab::future::recover', 'stlab::future::then') for x in ev.stack[:-1]):
            f = ev.args[-1]
            res.inst('input', fn.m)
            if any(x[0] == 's' and inside(x[1], f) for x in d):
                res.find('cycle', key, 'the continuation attached to an input owns the join it feeds: the join is never released while an input is pending',
                         w, common.trail(ev))
            if ('pend',) in d:
                res.find('not-held', key, 'the continuation attached to an input is not kept by the join: it is cancelled at once', w, common.trail(ev))
            d[('pend',)] = 1
        if ev.kind == 'enter' and q == 'stlab::future::operator=' or ev.kind in ('call', 'enter') and last(q) in ('swap', 'push_back', 'emplace_back') and 'future' in ev.full:
            if any(holds(a, ctxs) for a in ev.args[:2]):
                if ('pend',) in d:
                    res.inst('held', fn.m)
                d.pop(('pend',), None)
        if ev.kind == 'call' and q == 'std::make_shared' and re.search(r'stlab::(v\w+::)?detail::shared<', ev.full) and ev.args and ('pend',) not in d and ('fn',) not in d \
                and not any(x[1].q == 'stlab::future::recover' for x in ev.stack):
            d[('fn',)] = 1
            res.inst('join-function', fn.m)
            if not any(x[0] == 's' and inside(x[1], ev.args[-1]) for x in d):
                d[('weak',)] = 1
        if ('weak',) in d and ('pend',) in d:
                res.find('not-owned', key, 'the function of the join does not own the join: nothing keeps the join alive until its inputs have arrived',
                         w, common.trail(ev))
        wrap(ev, d)
        if d != o:
            st.tr = (frozenset(d.items()),) if d else ()
    return on


def refers(full, ctxs):
    return any(re.search(r'\b' + re.escape(c.split('::')[-1]) + r'<', full) for c in ctxs) or CTXP.search(full) is not None


def holds(t, ctxs):
    t = t.c
    while t.k in ('fld', 'elt', 'd'):
        if t.k == 'fld' and t.a[1] in ctxs and t.a[2] == ctxs[t.a[1]]:
            return True
        t = t.a[0]
    return False


def attached(R, res, fn):
    """the state of a continuation owns the future it was attached to; what is queued there does not own anything"""
    key = common.short_fn(fn.q)

    def on(ev, st):
        q = ev.q or ''
        w = '%s:%s' % (ev.file, ev.line)
        d = dict(st.tr[0]) if st.tr else {}
        o = dict(d)
        if ev.kind == 'enter' and q == 'stlab::future::future' and len(ev.args) == 2:
            d[('f', ev.args[0].c)] = 1
        if ev.kind == 'call' and q == 'std::make_shared' and re.search(r'stlab::(v\w+::)?detail::shared<', ev.full) and ev.args:
            res.inst('keeps-input', fn.m)
            if not any(x[0] == 'f' and inside(x[1], ev.args[-1]) for x in d):
                res.find('not-owned', key, 'the continuation does not own the future it is attached to: releasing the handle cancels what the continuation waits for',
                         w, common.trail(ev))
        r = R.role(ev.args[0]) if ev.kind == 'call' and ev.args and last(q) in ('emplace_back', 'push_back', 'operator=') else None
        pair = ev.kind == 'call' and q == 'std::pair::pair' and 'task_<' in ev.full.split('::pair')[0] and len(ev.args) > 2
        if r and r[0] == 'then' or pair:
            res.inst('queued', '%s %s' % (fn.m, w))
            if any(x[0] == 'f' and inside(x[1], a) for x in d for a in ev.args[1:]):
                res.find('queued-owner', key, 'what is queued until the result is ready owns a future itself: dropping the last future no longer cancels it',
                         w, common.trail(ev))
        wrap(ev, d)
        if d != o:
            st.tr = (frozenset(d.items()),) if d else ()
    return on
