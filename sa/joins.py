"""Joins (when_all, when_any): the contexts they share, the bodies run per input and the body run at the end.

A join context is recognised by what is done with it: a task body that locks a weak handle to an object which is no future state
and then invokes a packaged task stored in that object.
"""
import re

import common
from absint import NULL, mk, root, show
from futures import SB, Roles, fn_throws, is_task_root, of_lock, sub
from names import last, scope

NOTCTX = re.compile(r'^stlab::detail::(shared_base|shared_task|shared|value_)$|^stlab::(packaged_task|future|detail::promise)$')


def path_of(t):
    """(object, fields) of an address: the fields from the object outwards; index of elements as None"""
    fs = []
    while t.k in ('fld', 'elt'):
        fs.append((t.a[1], t.a[2]) if t.k == 'fld' else ('elt', None))
        t = t.a[0]
    return t, tuple(reversed(fs))


def ctx_field(t, strong=False):
    """(object, fields) when the address lies in a join context reached through a locked weak handle (or a captured strong one)"""
    o, fs = path_of(t)
    if not fs or o.k != 'd':
        return None
    h = o.a[0]
    if h.k == 'lk':
        pass
    elif strong and h.k in ('ld', 'new'):
        pass
    else:
        return None
    if NOTCTX.match(fs[0][0]) or not fs[0][0].startswith('stlab::'):
        return None
    return o, fs


def key(fs):
    return fs[0][0] + '.' + '.'.join('[]' if c == 'elt' else n for c, n in fs if n is None or not n.startswith('#'))


def ld_of(t):
    for x in sub(t):
        if x.k == 'ld':
            return x.a[0]
        if x.k == 'res' and x.a[0] in ('std::operator==',):
            return x.a[1]
    return None


def is_trigger(ev):
    if ev.kind in ('enter', 'call') and ev.q == 'stlab::packaged_task::operator()':
        return ctx_field(ev.args[0])
    return None


def value_of(ev, st):
    if ev.val is not None:
        return ev.val
    if len(ev.args) > 1:
        v = st.env.get(ev.args[1])
        return v if v is not None else mk('ld', ev.args[1]) if ev.args[1].k != 'c' else ev.args[1]
    return None


STORES = ('operator=', 'emplace', 'swap', 'exchange', 'reset')


def base_ld(t):
    for x in sub(t):
        if x.k in ('ld', 'ph'):
            return x
    return None


class Joins:
    def __init__(self, p):
        self.p = p
        self.R = Roles(p)

    def hook(self, extra=None, strong=False):
        """labels: A alive, EX input error, LK/UL critical section of the context, T test of a field, W write, DEC counting,
        IDX element index, R trigger"""
        R = self.R

        def own_state(o):
            return of_lock(o) is not None or o.c.k == 'd' and o.c.a[0].k == 'ptrh' or o.c.k == 'arg'

        def on(ev, st):
            k = ev.kind
            if extra is not None:
                x = extra(ev, st)
                if x is not None:
                    return x
            if k == 'assume':
                t, v = ev.args[0], bool(ev.val.a[0])
                if t.k == 'bool' and t.a[0].k == 'lk':
                    h = t.a[0].a[0]
                    if h.k == 'ld' and root(h.a[0]).k == 'arg' and not ctx_field(h.a[0]):
                        return ('A', v)
                    return
                a = ld_of(t)
                if a is None:
                    return
                c = ctx_field(a, strong)
                if c and not R.role(a):
                    b = base_ld(t)
                    return ('T', key(c[1]), norm_test(t, v), b.site if b is not None else None)
                r = R.role(a)
                if r and r[0] == 'exc' and not own_state(r[1]):
                    if t.k == 'cmp':
                        v = not v
                    return ('EX', v)
                return
            if k in ('lock', 'unlock') and ev.args:
                o, fs = path_of(ev.args[0])
                if fs and not NOTCTX.match(fs[0][0]):
                    return ('LK',) if k == 'lock' else ('UL',)
                return
            c = is_trigger(ev)
            if c:
                return ('R', key(c[1]), bool(ev.locks))
            if k == 'load' and ev.args:
                c = ctx_field(ev.args[0], strong)
                if c and not R.role(ev.args[0]) and ev.res is not None:
                    return ('LD', key(c[1]), ev.res.site)
                return
            if k in ('store', 'rmw', 'call', 'user') and ev.args:
                if k == 'call' and last(ev.q) in ('operator[]', 'at') and len(ev.args) > 1:
                    c = ctx_field(ev.args[0], strong)
                    if c:
                        return ('IDX', key(c[1]), kind_of(self, ev.args[1], ev, st))
                    return
                if k in ('call', 'user') and last(ev.q) not in STORES:
                    return
                for i, a in enumerate(ev.args[:2] if last(ev.q) == 'swap' else ev.args[:1]):
                    c = ctx_field(a, strong)
                    if c and not R.role(a):
                        v = value_of(ev, st)
                        if v is not None and v.k == 'bin' and v.a[0] == 'add' and v.a[2].k == 'c' and v.a[1].k in ('ld', 'ph'):
                            return ('DEC', key(c[1]), v.a[2].a[0], v.a[1].site)
                        if k == 'rmw' and isinstance(ev.extra, int):
                            return ('DEC', key(c[1]), ev.extra, ev.res.site if ev.res is not None else None)
                        if c[1][-1][1] == '_p':
                            return          # a handle inside a future or task
                        return ('W', key(c[1]), show(v) if v is not None else '?', kind_of(self, v, ev, st))
        return on

    def scan(self, ck, after, fns, extra=None, strong=False, dup=2):
        R = self.R
        return common.scan(ck, self.p, None, lambda res, fn: self.hook(extra, strong), after=after, fns=fns, throws=fn_throws, dup=dup,
                           stable=lambda a: (R.role(a) or ('',))[0] == 'exc')

    def inits(self, cls):
        """initial values of the fields a constructor of the class stores: field -> set of (constructor, value)"""
        from absint import Interp
        out = {}
        for f in self.p.funcs.values():
            if f.q != cls + '::' + last(cls) or not f.args:
                continue
            this = mk('arg', 0, f.args[0][0])

            def on(ev, st):
                if ev.kind in ('store', 'call') and ev.args and (ev.kind == 'store' or last(ev.q) in ('exception_ptr', 'operator=')):
                    a = ev.args[0]
                    if a.k == 'fld' and a.a[0] is this:
                        v = ev.val
                        if v is None:
                            v = NULL if len(ev.args) == 1 else value_of(ev, st)
                        out.setdefault(cls + '.' + a.a[2], set()).add((f.d, v))
            Interp(self.p, on=on, throws=lambda ev: False).run(f)
        return out


def norm_test(t, v):
    """(predicate, operand, truth)"""
    while t.k == 'not':
        t, v = t.a[0], not v
    if t.k == 'cmp':
        if t.a[2].k == 'c':
            n = t.a[2].a[0]
            if t.a[1].k == 'bin' and t.a[1].a[0] == 'add' and t.a[1].a[2].k == 'c':
                n -= t.a[1].a[2].a[0]
            return (t.a[0], n, v)
        b = base_ld(t.a[2])
        o = t.a[1] if b is not None and base_ld(t.a[1]) is None else t.a[2]
        return (t.a[0], show(o), v)
    if t.k in ('bool', 'ld'):
        return ('set', 0, v)
    return ('?', 0, v)


def satisfies(val, test):
    """does a value (constant int, 'null', 'set' or text) pass the test? None: unknown"""
    pred, n, v = test
    if pred == 'set' or pred == 'eq' and n == 0:
        r = False if val in (0, 'null') else True if val == 'set' or isinstance(val, int) else None
        if r is None:
            return None
        return (r if pred == 'set' else not r) == v
    if pred == 'eq':
        if val == n:
            return v
        if isinstance(val, int) or val == 'set':
            return not v
    return None


def simple(v):
    if v is None:
        return '?'
    if v.k == 'c':
        return v.a[0]
    if v.k == 'null':
        return 'null'
    return show(v)


def kind_of(j, v, ev, st):
    """what is written: the error or value of an input future, a constant, a captured index"""
    if v is None:
        return '?'
    if v.k == 'c':
        return 'c%d' % v.a[0]
    for x in sub(v):
        if x.k == 'fld':
            r = j.R.role(x)
            if r:
                return {'exc': 'input error', 'res': 'input value'}.get(r[0], r[0])
    if v.k == 'ld' and root(v.a[0]).k == 'arg' and not any(x.k == 'lk' for x in sub(v)):
        return 'captured'
    return 'other'


def input_roots(p):
    return [f for f in common.roots(p) if is_task_root(f)]


def api(fn):
    """'all' or 'any': which join this body belongs to (the witness marks them by executor)"""
    if 'exec_all' in fn.d or 'when_all' in fn.d:
        return 'all'
    if 'exec_any' in fn.d or 'when_any' in fn.d:
        return 'any'
    return None
