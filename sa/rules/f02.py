"""F02: a future becomes ready only after its value or error is in place, and is only read once it is ready."""
import common
from absint import show, root
from futures import Roles, fresh, sub
from guarded import mutates
from names import last, scope
from rules.f01 import frame

RELAXED = {0}


def run(ck):
    p = common.load(ck, common.ALL_UNITS)
    R = Roles(p)

    def mkon(res, fn):
        ep = ['entry point ' + common.short_fn(fn.d)]
        reader = fn.q in ('stlab::future::get_try',)
        getter = fn.q in ('stlab::future::get_try', 'stlab::future::get_ready')

        def on(ev, st):
            k = ev.kind
            if k == 'assume':
                t, v = ev.args[0], bool(ev.val.a[0])
                o = R.ready_term(t)
                if o is not None:
                    if t.k == 'cmp' and t.a[2].a[0] == 0:
                        v = not v
                    if v:
                        return ('RDY', show(o.c))
                    return
                for x in sub(t):
                    if x.k == 'fld':
                        r = R.role(x)
                        if r and r[0] == 'res' and v and (t.k == 'bool' or t.k == 'ld'):
                            return ('NOEXC', show(r[1].c))
                        if r and r[0] == 'exc':
                            if t.k == 'bool' and not v or t.k == 'cmp' and v:
                                return ('NOEXC', show(r[1].c))
                        break
                return
            if k not in ('call', 'store', 'rmw', 'load', 'user', 'dtor'):
                return
            for i, a in enumerate(ev.args[:1] if k in ('store', 'rmw', 'load') else ev.args):
                r = R.role(a)
                if not r:
                    continue
                role, obj = r
                o = show(obj.c)
                ln = last(ev.q)
                if role == 'ready':
                    if ev.mo is not None and ev.mo in RELAXED:
                        res.find('relaxed-ready', '%s in %s' % (k, frame(ev)), 'the ready flag is accessed with relaxed ordering: a '
                                 'reader can see it set before the value', ev.where(), ep + common.trail(ev))
                    if k == 'load':
                        res.inst('ready-load', frame(ev))
                        continue
                    if k in ('store', 'rmw') and i == 0:
                        if ev.val is not None and ev.val.k == 'c' and not ev.val.a[0]:
                            continue
                        res.inst('publication', frame(ev))
                        if ('W', o) not in st.tr:
                            res.find('ready-before-value', 'publication in %s' % frame(ev),
                                     'a future is marked ready before its value or exception is stored', ev.where(),
                                     ep + common.trail(ev))
                        return ('S', o)
                elif role in ('res', 'exc'):
                    if k == 'dtor' or ln == scope(ev.q)[scope(ev.q).rfind('::') + 2:] and i == 0:
                        continue
                    if i == 0 and mutates(ev, 0) and k != 'load':
                        if role == 'res' and ln in ('operator*', 'operator->', 'value'):
                            continue
                        if role == 'res' and ln == 'reset':
                            continue
                        res.inst('value-store', frame(ev))
                        if ('S', o) in st.tr:
                            res.find('value-after-ready', 'store in %s' % frame(ev),
                                     'the value or exception is stored after the future was marked ready', ev.where(),
                                     ep + common.trail(ev))
                        return ('W', o)
                    if reader:
                        res.inst('guarded-read', '%s in %s' % (role, frame(ev)))
                        if ('RDY', o) not in st.tr:
                            res.find('read-unready', '%s in %s' % (role, frame(ev)),
                                     'the %s is read without having found the future ready' % ('value' if role == 'res' else
                                                                                              'exception'), ev.where(),
                                     ep + common.trail(ev))
                    if getter and role == 'res' and ln not in ('has_value', 'operator bool', '_M_is_engaged'):
                        res.inst('value-read', frame(ev))
                        if ('NOEXC', o) not in st.tr:
                            res.find('value-despite-error', 'value read in %s' % frame(ev),
                                     'the value of a future is read without having found that it holds no exception', ev.where(),
                                     ep + common.trail(ev))
        return on
    common.scan(ck, p, None, mkon)
    ck.require('publication', 2)
    ck.require('value-store', 2)
    ck.require('ready-load', 2)
    ck.assumptions += ['get_ready(), exception() and error() document the precondition that the future is ready; continuations receive '
                       'ready futures (F01)']
    return ck.finish('Ordering typestate per shared state: on every path the ready flag is set only after a value or exception was '
                     'stored, neither is stored afterwards, try-style reads happen only on paths that found the flag set, a value is '
                     'read only on paths that found no exception, and no access of the flag is relaxed.')
