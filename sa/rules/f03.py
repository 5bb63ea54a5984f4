"""F03: the resolving side of a future resolves it exactly once; dropping or overwriting it breaks the promise."""
import re

import common
from absint import mk, show, under
from build import Broken
from futures import SB, Roles, exec_nothrow, handle_classes, of_lock
from names import last, scope

RES = re.compile(r'^stlab::detail::(shared_base|shared_task|shared|value_)::')


def consts(p, name):
    """the constant a witness function returns"""
    for f in p.funcs.values():
        if f.q == 'w::' + name:
            for b in f.load():
                for i in b:
                    if i['o'] == 'ret' and isinstance(i.get('v'), list) and i['v'][0] == 'c':
                        return i['v'][1]
    raise Broken('witness constant %s not found' % name)


def run(ck):
    p = common.load(ck, common.ALL_UNITS)
    R = Roles(p)
    H = handle_classes(p)
    broken = consts(p, 'broken_promise_code')
    fns = []
    for f in p.funcs.values():
        sc = scope(f.q)
        if sc in H and f.args and '(.resume)' not in f.d:
            cal = p.callers.get(f.m, {})
            if cal and all(c in p.funcs and scope(p.funcs[c].q) == sc for c in cal):
                continue        # a helper of the class itself: analysed through its callers
            fns.append(f)
    common_on(ck, p, R, H, broken, sorted(fns, key=lambda f: f.m))
    for c in H:
        ck.inst('handle-class', c)
    ck.require('handle-class', 2)
    ck.require('break-on-destroy', 2)
    ck.require('break-on-overwrite', 2)
    ck.require('resolve', 4)
    ck.require('move', 2)
    ck.assumptions += ['resolving operations are the non-const member functions called on the state behind the weak handle',
                       'executors and noexcept continuations do not throw']
    return ck.finish('Linear-handle typestate on every member function of the classes that refer to a future state weakly: on each path on '
                     'which the state is alive, a resolving member resolves exactly once and empties the handle before it does; the '
                     'destructor and move assignment resolve what they drop, with the broken promise error.')


def common_on(ck, p, R, H, broken, fns):
    def mkon(res, fn):
        ep = ['entry point ' + common.short_fn(fn.d)]
        cls = scope(fn.q)
        ln = last(fn.q)
        this = mk('arg', 0, fn.args[0][0])
        hv = mk('ld', mk('fld', this, cls, H[cls]))

        def on(ev, st):
            k = ev.kind
            if k == 'assume':
                for x in (ev.args[0].a[0],) if ev.args[0].k == 'bool' else ():
                    if x.k == 'lk':
                        return ('L', show(x.a[0]), bool(ev.val.a[0]))
                return
            if k == 'enter' and ev.q == 'stlab::future_error::future_error' and len(ev.args) > 1:
                return ('B', ev.args[1].k == 'c' and ev.args[1].a[0] == broken)
            if k in ('vcall', 'enter', 'call'):
                a = ev.args[0] if ev.args else None
                if a is None:
                    return
                if k == 'call':
                    l2 = last(ev.q)
                    for i, x in enumerate(ev.args[:2]):
                        if x.k == 'fld' and x.a[1:] == (cls, H[cls]):
                            if l2 in ('swap', 'exchange') or i == 0 and l2 in ('reset', 'operator=') or \
                                    i == 1 and '&&' in ev.full[ev.full.rfind('('):]:
                                return ('E', show(x.a[0]))
                    return
                h = of_lock(a)
                if h is None or not RES.match(ev.q):
                    return
                caller = ev.stack[-1][1] if k == 'enter' and ev.stack else ev.fn
                if scope(caller.q) not in H and not any(scope(caller.q).startswith(c + '::') for c in H):
                    return
                if ev.full.rstrip().endswith('const') or last(ev.q).startswith(('~', 'is_', 'get_', 'exception')):
                    return
                exc = 'exception' in last(ev.q)
                n = sum(1 for x in st.tr if x[0] == 'R' and x[1] == show(h))
                if n:
                    res.find('resolved-twice', 'resolution in ' + fn.q, 'the same state is resolved twice on one path', ev.where(),
                             ep + common.trail(ev))
                res.inst('resolution-site', '%s in %s' % (ev.q, caller.q))
                emptied = any(x[0] == 'E' for x in st.tr)
                if h is hv and not emptied and not ln.startswith('~') and scope(caller.q) == cls:
                    res.find('handle-kept', 'resolution in ' + fn.q, 'the state is resolved while the handle still refers to it: a '
                             're-entrant or later call, or the destructor, resolves it again', ev.where(), ep + common.trail(ev))
                return ('R', show(h), exc)
        return on

    def after(res, fn, outs):
        cls, ln = scope(fn.q), last(fn.q)
        this = mk('arg', 0, fn.args[0][0])
        hs = show(mk('ld', mk('fld', this, cls, H[cls])))
        dtor = ln.startswith('~')
        asg = ln == 'operator=' and '&&' in fn.d[fn.d.rfind('operator='):]
        mctor = ln == cls[cls.rfind('::') + 2:] and len(fn.args) == 2 and ln in fn.d[fn.d.rfind('('):] and '&&' in fn.d[fn.d.rfind('('):]
        src = show(mk('arg', 1, fn.args[1][0])) if len(fn.args) > 1 else ''
        where = '%s:%s' % (fn.file, fn.line)
        ep = ('entry point ' + common.short_fn(fn.d),)
        resolving = any(x[0] == 'R' for o in outs for x in o[2].tr)
        for kind, r, st in outs:
            if kind != 'ret':
                continue
            al = [x for x in st.tr if x[0] == 'L' and x[1] == hs]
            rs = [x for x in st.tr if x[0] == 'R' and x[1] == hs]
            alive = any(x[2] for x in al)
            if mctor:
                res.inst('move', fn.d[:150])
                if not any(x == ('E', src) for x in st.tr):
                    res.find('shared-by-move', fn.q, 'moving a task or promise leaves the moved-from object attached to the same future',
                             where, ep)
            elif dtor or asg:
                res.inst('break-on-destroy' if dtor else 'break-on-overwrite', fn.d[:150])
                if not al:
                    res.find('left-hanging', fn.q, 'the state that is dropped is never looked at: its future is left unresolved', where, ep)
                elif alive and not rs:
                    res.find('left-hanging', fn.q, 'the future of a dropped task or promise is left unresolved', where, ep)
                elif alive and not all(x[2] for x in rs):
                    res.find('left-hanging', fn.q, 'a dropped task or promise is run instead of broken', where, ep)
                elif alive and not any(x == ('B', True) for x in st.tr):
                    res.find('wrong-error', fn.q, 'a dropped task or promise does not report the broken promise error', where, ep)
            elif resolving:
                res.inst('resolve', fn.d[:150])
                if alive and len(rs) != 1:
                    res.find('not-resolved', fn.q, 'a path on which the future is alive does not resolve it', where, ep)
                if rs and not alive:
                    res.find('unchecked', fn.q, 'the state is resolved without having found it alive', where, ep)
    common.scan(ck, p, None, mkon, after=after, fns=fns, throws=exec_nothrow)
