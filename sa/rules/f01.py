"""F01: a continuation attached to a future is run exactly once, whichever thread resolves it and when."""
import common
from absint import CONT, show
from futures import Roles, fresh, sub, user_run
from guarded import mutates
from names import last, scope


def frame(ev):
    """innermost library function that is executing"""
    if ev.fn.q.startswith('stlab::'):
        return ev.fn.q
    for m, caller, l in reversed(ev.stack):
        if caller.q.startswith('stlab::'):
            return caller.q
    return ev.fn.q


def moved(ev):
    f = ev.full
    return last(ev.q) == 'operator=' and '&&' in f[f.rfind('operator='):]


def vec(ev):
    return '[]' if scope(ev.q) in CONT else ''


def fin(x):
    # site, object, taken from ('' nothing, '[]' list, '1' single), runs, empty, construct, path
    return (x[1], x[2], '' if not x[3] else (x[3][0] or '1'), x[4], x[5], x[6], x[7])


def bare(ev):
    """inside an operation that only keeps the state alive (takes nothing but the future)"""
    fns = [ev.fn] + [c for m, c, l in ev.stack]
    return any('detach' in last(f.q) and len(f.args) <= 1 for f in fns if f.q.startswith('stlab::'))


def run(ck):
    p = common.load(ck, common.ALL_UNITS)
    R = Roles(p)

    def mkon(res, fn):
        vs = res.x.setdefault('v', set())       # outcomes of attach decisions
        ss = res.x.setdefault('s', set())       # outcomes of resolutions
        ep = ['entry point ' + common.short_fn(fn.d)]

        def pend(st, kind):
            for i, x in enumerate(st.tr):
                if x[0] == kind:
                    return i, x
            return None, None

        def put(st, kind, new):
            st.tr = tuple(x for x in st.tr if x[0] != kind) + ((new,) if new else ())

        def closev(st):
            i, x = pend(st, 'V')
            if x:
                vs.add(x[1:])
                put(st, 'V', None)

        def closes(st):
            i, x = pend(st, 'S')
            if x:
                ss.add(fin(x))
                put(st, 'S', None)

        def on(ev, st):
            k = ev.kind
            if k == 'lock':
                # a decision taken before this critical section is stale
                st.tr = tuple(x for x in st.tr if x[0] not in ('R', 'T', 'E'))
                return
            if k == 'unlock':
                st.tr = tuple(x for x in st.tr if x[0] != 'T')
                return
            if k == 'load' and ev.args:
                r = R.role(ev.args[0])
                if r and r[0] == 'ready' and R.held(ev, r[1]):
                    return ('R', show(r[1].c), '%s:%s' % (ev.file, ev.line), bare(ev))
                return
            if k == 'assume':
                o = R.ready_term(ev.args[0])
                if o is not None:
                    i, x = pend(st, 'R')
                    if x and x[1] == show(o.c):
                        neg = ev.args[0].k == 'cmp'
                        v = bool(ev.val.a[0])
                        if ev.args[0].k == 'cmp' and ev.args[0].a[0] == 'eq' and ev.args[0].a[2].a[0] == 0:
                            v = not v
                        closev(st)
                        # site, value, object, bare, attached, runs
                        put(st, 'V', ('V', x[2], v, x[1], x[3], 0, 0))
                    return
                t, v = ev.args[0], bool(ev.val.a[0])
                if t.k == 'bool' and t.a[0].k == 'ld':
                    r = R.role(t.a[0].a[0])
                    if r and r[0] == 'then' and not v:
                        return ('E', show(r[1].c))
                if t.k == 'bool' and t.a[0].k == 'res' and v or t.k == 'cmp' and t.a[0] == 'eq' and t.a[1].k == 'res' and v:
                    x = t.a[0] if t.k == 'bool' else t.a[1]
                    r = R.role(x.a[1]) if len(x.a) > 1 else None
                    if r and r[0] == 'then':
                        return ('E', show(r[1].c))
                return
            if user_run(ev):
                i, x = pend(st, 'V')
                if x:
                    put(st, 'V', x[:6] + (min(x[6] + 1, 2),))
                i, x = pend(st, 'S')
                if x:
                    src = x[3]
                    if src and any(y is src[1] for a in ev.args for z in (a, st.env.get(a)) if z is not None for y in sub(z)):
                        put(st, 'S', x[:4] + (min(x[4] + 1, 2),) + x[5:])
                return
            if k not in ('call', 'store', 'rmw'):
                return
            for i, a in enumerate(ev.args[:1] if k != 'call' else ev.args):
                r = R.role(a)
                if not r:
                    continue
                role, obj = r
                if role == 'then':
                    if i > 0 and k == 'call' and R.held(ev, obj) and (mutates(ev, i) or last(ev.q) == 'swap' or moved(ev)):
                        st.tr = tuple(x for x in st.tr if x[0] != 'T') + (('T', show(obj.c), vec(ev), ev.args[0]),)
                        continue
                    if i > 0 or not mutates(ev, 0):
                        continue
                    ln = last(ev.q)
                    if ln == 'swap' and len(ev.args) > 1 and R.held(ev, obj):
                        st.tr = tuple(x for x in st.tr if x[0] != 'T') + (('T', show(obj.c), vec(ev), ev.args[1]),)
                        continue
                    if ln.startswith('~') or ln in ('clear',):
                        continue
                    if ln == scope(ev.q)[scope(ev.q).rfind('::') + 2:]:
                        continue
                    # attach
                    what = 'attach in %s' % frame(ev)
                    res.inst('attach', what)
                    if not R.held(ev, obj):
                        res.find('attach-unlocked', what, 'a continuation is attached without the mutex of the future', ev.where(),
                                 ep + common.trail(ev))
                    j, x = pend(st, 'V')
                    jr, xr = pend(st, 'R')
                    if not (x and xr and x[3] == show(obj.c) and x[2] is False):
                        res.find('attach-unchecked', what, 'a continuation is attached without finding the future unresolved in the '
                                 'same critical section: a future resolved in between never runs it', ev.where(),
                                 ep + common.trail(ev))
                    if x:
                        put(st, 'V', x[:5] + (min(x[5] + 1, 2),) + x[6:])
                elif role == 'ready' and k in ('store', 'rmw') and i == 0:
                    if ev.extra == 'init' or fresh(obj) or ev.val is not None and ev.val.k == 'c' and not ev.val.a[0]:
                        continue
                    what = 'resolution in %s' % frame(ev)
                    res.inst('resolution', what)
                    if not R.held(ev, obj):
                        res.find('resolve-unlocked', what, 'a future is marked ready without its mutex: a continuation attached '
                                 'meanwhile is lost', ev.where(), ep + common.trail(ev))
                    ts = [x for x in st.tr if x[0] == 'T' and x[1] == show(obj.c)]
                    src = ts[-1][2:] if ts else None
                    closes(st)
                    # site, object, source, runs, empty known
                    put(st, 'S', ('S', '%s:%s' % (ev.file, ev.line), show(obj.c), src, 0,
                                  ('E', show(obj.c)) in st.tr, what, tuple(ep + common.trail(ev))))
            # a take after the store inside the same critical section
            i, x = pend(st, 'S')
            if x and not x[3]:
                ts = [y for y in st.tr if y[0] == 'T' and y[1] == x[2]]
                if ts:
                    put(st, 'S', x[:3] + (ts[-1][2:],) + x[4:])
        return on

    def after(res, fn, outs):
        for kind, r, st in outs:
            if kind != 'ret':
                continue
            for x in st.tr:
                if x[0] == 'V':
                    res.x['v'].add(x[1:])
                elif x[0] == 'S':
                    res.x['s'].add(fin(x))
    out = common.scan(ck, p, None, mkon, after=after)
    V, S = {}, {}
    for r in out:
        for x in r.x['v']:
            V.setdefault(x[0], set()).add(x[1:])
        for x in r.x['s']:
            S.setdefault(x[0], set()).add(x[1:])
    n = 0
    for site, os in sorted(V.items()):
        if not any(o[4 - 1] for o in os):
            continue          # nothing is ever attached after this test
        n += 1
        ck.inst('attach-decision', site)
        for val, obj, br, att, runs in sorted(os):
            if val is False and att != 1:
                ck.find('continuation-lost', 'test at %s' % rel(site), 'an unresolved future: the continuation is attached %d times' % att,
                        site)
            if val is False and runs:
                ck.find('continuation-duplicated', 'test at %s' % rel(site), 'the continuation is attached and also run', site)
            if val is True and att:
                ck.find('continuation-lost', 'test at %s' % rel(site), 'the continuation is attached to a resolved future', site)
            if val is True and not br and runs != 1:
                ck.find('continuation-lost' if runs == 0 else 'continuation-duplicated', 'test at %s' % rel(site),
                        'a resolved future: the continuation is run %d times' % runs, site)
    for site, os in sorted(S.items()):
        loop = max(o[2] for o in os)
        what = sorted({o[4] for o in os})[0]
        path = sorted({o[5] for o in os})[0]
        if any(o[2] for o in os) and loop < 2 and any(o[1] == '[]' for o in os):
            ck.find('continuations-not-run', what, 'only the first of the continuations is scheduled', site, path)
        for obj, src, runs, empty, w, pth in sorted(os):
            if not src and not empty:
                ck.find('continuations-not-taken', w, 'a future is resolved without taking its continuations in the same critical '
                        'section', site, pth)
        if not any(o[2] for o in os):
            ck.find('continuations-not-run', what, 'no path after the resolution schedules the continuations', site, path)
    ck.require('attach', 1)
    ck.require('attach-decision', 2)
    ck.require('resolution', 1)
    ck.cov['attach_outcomes'] = sum(len(v) for v in V.values())
    ck.cov['resolution_outcomes'] = sorted({'%s: taken=%s runs=%d' % (rel(s), bool(o[1]), o[2]) for s, v in S.items() for o in v})
    return ck.finish('On every path, attaching a continuation requires the ready flag to have been found false in the same critical '
                     'section; the decision is tabulated by test site: unresolved => attached once and not run, resolved => run once '
                     'and not attached. Marking a future ready happens under the mutex, takes the continuations in the same critical '
                     'section, and afterwards schedules each with its own executor.')


def rel(s):
    return s.replace('/repo/', '')
