"""F08: a continuation is handed to the executor it was attached with, or else to the one of the future it is attached to, and to no other."""
import re

import common
from absint import mk, root, show, under
from futures import EXECS, Roles
from names import last, scope

API = re.compile(r'stlab::(future<.*>::(then|recover|operator\||operator\^)|async|when_all|when_any|package|make_ready_future|make_exceptional_future'
                 r'|future_with_broken_promise|detail::_make_exceptional_future<.*>::operator\(\)|detail::shared_base<.*>::recover'
                 r'|make_when_any<.*>::make|detail::create_range_of_futures<.*>::do_it)<?')
EXTY = re.compile(r'^(?:const )?(w::exec\w*\b|stlab::detail::(?:immediate_executor_type|executor_type|system_timer_type|main_executor_type)'
                  r'|std::function<void \(stlab::task_.*>|stlab::executor_t\b|stlab::executor_task_pair<.*>)')


def params(d):
    """parameter types of a demangled function"""
    dep = 0
    i = len(d)
    end = d.rindex(')')
    j = end
    while j >= 0:
        if d[j] in ')>':
            if not (d[j] == '>' and d[j - 1] == '-'):
                dep += 1
        elif d[j] in '(<':
            dep -= 1
            if dep == 0 and d[j] == '(':
                break
        j -= 1
    return [x.strip() for x in split_args(d[j + 1:end])]


def head(d):
    """the qualified name with template arguments, without parameters"""
    return d[:opening(d)]


def opening(d):
    """index of the parenthesis that opens the parameter list"""
    dep = 0
    for i in range(d.rindex(')'), -1, -1):
        c = d[i]
        if c in ')]' or c == '>' and d[i - 1] != '-' and not d[:i + 1].endswith(('operator>', 'operator>>')):
            dep += 1
        elif c in '([' or c == '<' and not d[:i + 1].endswith(('operator<', 'operator<<')):
            dep -= 1
            if dep == 0:
                return i
    return 0


def split(s):
    out, dep, cur = [], 0, ''
    for i, c in enumerate(s):
        if c in '<([{':
            dep += 1
        elif c in ')]}' or c == '>' and s[i - 1] != '-':
            dep -= 1
        if c == ',' and dep == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def params(d):
    """parameter types of a demangled function"""
    return split(d[opening(d) + 1:d.rindex(')')]) if ')' in d else []


MOVED = mk('c', 'moved')
EXCLS = ('std::function', 'w::exec', 'w::exec_all', 'w::exec_any', 'stlab::detail::immediate_executor_type', 'stlab::detail::executor_type')


class Origins:
    """machine state: ('x', address) -> what the executor stored there is a copy of"""

    def __init__(self, R):
        self.R = R

    def get(self, st):
        return dict(st.tr[0]) if st.tr else {}

    def put(self, st, d):
        st.tr = (frozenset(d.items()),) if d else ()

    def of(self, d, t):
        t = t.c
        v = d.get(('x', t))
        if v is not None:
            return v
        if t.k == 'fld' and t.a[1] == 'std::pair':       # a pair copied from another pair
            return d.get(('x', t), t)
        return t

    def step(self, ev, st):
        """follow copies and moves"""
        q = ev.q or ''
        if ev.kind not in ('call', 'user', 'enter', 'dtor') or not ev.args:
            return
        c, n = scope(q), last(q)
        if ev.kind in ('call', 'user') and (c in EXCLS and (n == last(c) or n == 'operator=') or
                                            c == 'std::pair' and n in ('pair', 'operator=')):
            if len(ev.args) < 2:
                return
            ps = params(ev.full)
            d = self.get(st)
            dst = ev.args[0].c
            if c == 'std::pair' and len(ev.args) == 2:
                src = ev.args[1].c
                for f in ('first', 'second'):
                    s = mk('fld', src, 'std::pair', f).c
                    o = self.of(d, s)
                    if ('x', s) in d or o is not s:
                        d[('x', mk('fld', dst, 'std::pair', f).c)] = o
            else:
                for j, s in enumerate(ev.args[1:]):
                    o = self.of(d, s)
                    t = dst
                    if c == 'std::pair':
                        t = mk('fld', dst, 'std::pair', ('first', 'second')[j]).c
                        if ('x', s.c) not in d and not EXTY.match(ps[j] if j < len(ps) else ''):
                            continue
                    d[('x', t)] = o
                    if j < len(ps) and ps[j].endswith('&&') and t is not s.c and not many(s):
                        d[('x', s.c)] = MOVED
            self.put(st, d)


def many(t):
    """stands for every element of a container"""
    return t.k == 'elt' or t.k == 'fld' and many(t.a[0])


def stated(t, R):
    """the state whose executor field this is"""
    r = R.role(t)
    return r[1] if r and r[0] == 'ex' else None


def run(ck):
    p = common.load(ck, common.ALL_UNITS)
    R = Roles(p)
    fns = [f for f in common.roots(p) if API.match(f.q)]
    common.scan(ck, p, None, lambda res, fn: attach(R, res, fn), fns=fns, throws=lambda e: False,
                after=lambda res, fn, outs: once(res, fn, outs))
    # who stores the executor of a new state
    ctors = [f for f in p.funcs.values() if f.q in ('stlab::detail::shared_base::shared_base', 'stlab::detail::shared::shared')
             and any(EXTY.match(t) for t in params(f.d))]
    common.scan(ck, p, None, lambda res, fn: ctor(R, res, fn), fns=sorted(ctors, key=lambda f: f.m), throws=lambda e: False)
    # who runs what was stored
    res_ = [f for f in common.roots(p) if RESOLVE.match(f.q)]
    common.scan(ck, p, None, lambda res, fn: resolve(R, res, fn), fns=res_, throws=lambda e: False)
    for k, n in (('state', 8), ('pending', 4), ('ready', 4), ('stored', 3), ('resolved', 3), ('scheduled', 2)):
        ck.require(k, n)
    return ck.finish('Provenance of executor objects (copies, moves, pairs) from the parameter or the receiver\u2019s field to the state that is created, the entry '
                     'that is queued and the call that is made, on every path of every function that attaches or creates; pairing of continuation and '
                     'executor on every path that resolves.')


API = re.compile(r'stlab::(future::(then|recover|operator\||operator\^)|async|when_all|when_any|package|make_ready_future|make_exceptional_future'
                 r'|future_with_broken_promise|detail::_make_exceptional_future::operator\(\)|detail::shared_base::recover'
                 r'|make_when_any::make|detail::create_range_of_futures::do_it)$')
RESOLVE = re.compile(r'stlab::(detail::(shared_base|value_)::(set_value|set_exception|_set_exception|set|proceed)|detail::shared::(operator\(\)|set_exception|~shared)'
                     r'|detail::promise::.*|packaged_task::.*)$')


def expected(R, fn):
    """(explicit executor parameter or None, does the function take a receiver)"""
    ps = params(fn.d)
    names = [a[0] for a in fn.args if a[0] not in ('agg.result', 'this')]
    this = any(a[0] == 'this' for a in fn.args)
    if len(ps) > len(names) and not this:
        return None
    for t, n in zip(ps, names):
        if EXTY.match(t):
            i = [a[0] for a in fn.args].index(n)
            return ('param', mk('arg', i, n))
    if this and ('future' in fn.q or 'shared_base' in fn.q):
        i = [a[0] for a in fn.args].index('this')
        return ('receiver', mk('arg', i, 'this'))
    return None


def base(t):
    while t.a and hasattr(t.a[0], 'k') and t.k in ('fld', 'elt', 'd', 'ld'):
        t = t.a[0]
    return t


def ok(want, o, R, explicit):
    if o.k == 'x' or o.k == 'ph':
        return True
    if want[0] == 'param':
        return under(o, want[1])
    s = stated(o, R)
    return s is not None and base(s) is want[1]


def attach(R, res, fn):
    want = expected(R, fn)
    if want is None:
        return lambda ev, st: None
    O = Origins(R)
    key = '%s (%s)' % (common.short_fn(fn.q), 'explicit executor' if want[0] == 'param' else 'executor of the receiver')

    def on(ev, st):
        O.step(ev, st)
        q = ev.q or ''
        if any(EXECS.match(x[1].q) for x in ev.stack):
            return
        d = O.get(st)
        w = '%s:%s' % (ev.file, ev.line)

        def check(kind, t, what):
            o = O.of(d, t)
            res.inst(kind, fn.q + ' ' + w)
            if o is MOVED:
                res.find(kind, key + ' ' + kind, '%s an executor that has been moved away on this path' % what, w, common.trail(ev))
            elif not ok(want, o, R, None):
                res.find(kind, key + ' ' + kind, '%s %s instead of %s' % (what, show(o), 'the executor given by the caller' if want[0] == 'param' else
                                                                           'the executor of the future it is attached to'), w, common.trail(ev))
        if ev.kind == 'call' and q == 'std::make_shared' and re.search(r'stlab::(v\w+::)?detail::shared(_base)?<', ev.full) and ev.args:
            check('state', ev.args[0], 'the new future gets')
        elif ev.kind == 'call' and last(q) in ('emplace_back', 'push_back', 'emplace') and len(ev.args) >= 3:
            r = R.role(ev.args[0])
            if r and r[0] == 'then':
                check('pending', ev.args[1], 'the continuation is queued with')
        elif ev.kind == 'user' and last(q) == 'operator()' and len(ev.args) >= 2 and scope(q) in EXCLS:
            check('ready', ev.args[0], 'the continuation is run by')
            res.inst('scheduled', fn.m) if last(fn.q) == 'async' else None
            if last(fn.q) == 'async':
                d[('n',)] = min(2, d.get(('n',), 0) + 1)
                O.put(st, d)
        elif ev.kind == 'enter' and q == 'stlab::packaged_task::operator()' and not last(fn.q).startswith('make_'):
            res.find('direct', key, 'the continuation is run by the caller and not by the executor', w, common.trail(ev))
        if ev.kind in ('call', 'store', 'user') and last(q) in ('operator=', 'pair', '=') and ev.args:
            r = R.role(ev.args[0])
            if r and r[0] == 'then':
                t = ev.args[1] if len(ev.args) > 1 else None
                if t is not None:
                    f = mk('fld', t.c, 'std::pair', 'first').c
                    if ('x', f) in d:
                        check('pending', f, 'the continuation is queued with')
    return on


def once(res, fn, outs):
    if last(fn.q) != 'async':
        return
    for k, r, st in outs:
        if k != 'ret':
            continue
        n = dict(st.tr[0]).get(('n',), 0) if st.tr else 0
        if n != 1:
            res.find('async', common.short_fn(fn.q), 'async hands its function to the executor %s on some path' % ('more than once' if n else 'never'),
                     '%s:%s' % (fn.file, fn.line), ())


def ctor(R, res, fn):
    """the executor parameter ends up in the field of the object being constructed"""
    O = Origins(R)
    ps, names = params(fn.d), [a[0] for a in fn.args]
    i = next(i for i, t in enumerate(ps) if EXTY.match(t)) + len(names) - len(ps)
    want = mk('arg', i, names[i])

    def on(ev, st):
        O.step(ev, st)
        if ev.kind in ('call', 'user') and ev.args and last(ev.q) in ('function', 'operator='):
            r = R.role(ev.args[0])
            if r and r[0] == 'ex':
                w = '%s:%s' % (ev.file, ev.line)
                res.inst('stored', fn.m)
                o = O.of(O.get(st), ev.args[0])
                if o is not want:
                    res.find('stored', short(fn), 'the new state stores %s instead of the executor it was given' % show(o), w, common.trail(ev))
    return on


def short(fn):
    return common.short_fn(fn.q)


def elem(t, f):
    """the pair whose member this is"""
    if t.k == 'fld' and t.a[1] == 'std::pair' and t.a[2] == f:
        return t.a[0].c
    return None


def under_elt(t):
    return t.a[0].c if t is not None and t.k == 'elt' else None


def resolve(R, res, fn):
    """what is run is what was queued, by the executor it was queued with"""
    O = Origins(R)

    def on(ev, st):
        O.step(ev, st)
        q = ev.q or ''
        w = '%s:%s' % (ev.file, ev.line)
        d = O.get(st)
        if ev.kind == 'call' and scope(q) == 'stlab::task_' and last(q) in ('task_', 'operator=') and len(ev.args) == 2:
            s = ev.args[1].c
            d[('t', ev.args[0].c)] = d.get(('t', s), s)
            O.put(st, d)
        elif ev.kind == 'call' and scope(q) in ('std::vector', 'std::deque') and ev.args and last(q) in ('begin', 'front', 'back'):
            if last(q) == 'begin':
                d[('it', ev.args[0].c)] = 1
            elif ('it', ev.args[0].c) in d:
                d[('other',)] = ev.args[0].c
            O.put(st, d)
        elif ev.kind == 'user' and last(q) == 'operator()' and scope(q) in EXCLS and len(ev.args) >= 2:
            t = ev.args[1].c
            t = d.get(('t', t), t)
            e = O.of(d, ev.args[0])
            pe, pt = elem(e, 'first'), elem(t, 'second')
            if pe is None and pt is None:
                return
            res.inst('resolved', fn.m)
            other = d.pop(('other',), None)
            O.put(st, d)
            if other is not None and other is under_elt(pt):
                res.find('pairing', short(fn), 'while the continuations are iterated over, one is run by the executor of a fixed element', w, common.trail(ev))
            if pe is not pt:
                res.find('pairing', short(fn), 'a continuation (%s) is run by an executor (%s) it was not attached with' % (show(t), show(e)),
                         w, common.trail(ev))
        elif ev.kind in ('call', 'icall', 'user', 'enter') and ev.args and scope(q) == 'stlab::task_' and last(q) == 'operator()':
            t = ev.args[0].c
            if elem(d.get(('t', t), t), 'second') is not None and not any(EXECS.match(x[1].q) for x in ev.stack):
                res.find('direct', short(fn), 'a continuation is run directly and not by its executor', w, common.trail(ev))
    return on
