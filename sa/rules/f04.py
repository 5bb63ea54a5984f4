"""F04: an exception thrown by a user's task ends up, unchanged, in the future of that task."""
import common
from absint import mk, show
from futures import Roles, fn_throws, sub, is_task_root
from names import last


def run(ck):
    p = common.load(ck, common.ALL_UNITS)
    R = Roles(p)

    def mkon(res, fn):
        ep = ['entry point ' + common.short_fn(fn.d)]

        def on(ev, st):
            k = ev.kind
            if k == 'user':
                if last(ev.q) == 'operator()' and ev.q.startswith('w::'):
                    res.inst('user-call', ev.full[:120])
                    st.tr = tuple(x for x in st.tr if x[0] != 'U') + (('U', ev.q, ev.where()),)
                return
            if k == 'assume':
                t = ev.args[0]
                if t.k == 'bool' and t.a[0].k == 'lk' and not ev.val.a[0]:
                    return ('L0',)
                return
            if k == 'catch':
                res.inst('handler', '%s' % common.short_fn(ev.fn.q))
                st.tr = tuple(x for x in st.tr if x[0] not in ('C', 'X')) + (('C', ev.where()),)
                return
            if k in ('call', 'store', 'rmw') and ev.args:
                r = R.role(ev.args[0])
                if r and r[0] == 'exc' and last(ev.q) in ('operator=', 'exception_ptr', 'swap', ''):
                    v = ev.val if ev.val is not None else (st.env.get(ev.args[1]) if len(ev.args) > 1 else None)
                    if v is not None and any(x.k == 'res' and x.a[0] == 'current_exception' for x in sub(v)):
                        res.inst('captured', '%s' % common.short_fn(ev.fn.q))
                        return ('X',)
        return on

    def after(res, fn, outs):
        res.inst('task', fn.m)
        where = '%s:%s' % (fn.file, fn.line)
        for kind, r, st in outs:
            u = [x for x in st.tr if x[0] == 'U']
            at = u[-1][2] if u else where
            ep = ('entry point ' + common.short_fn(fn.d),)
            key = 'task %s' % skey(fn)
            if kind == 'terminate':
                res.find('terminates', key, 'an exception thrown by the user\'s function terminates the program', at, ep)
            elif kind == 'unwind':
                res.find('escapes', key, 'an exception thrown by the user\'s function escapes from the task into the executor', at, ep)
            elif any(x[0] == 'C' for x in st.tr) and ('X',) not in st.tr and ('L0',) not in st.tr:
                c = [x for x in st.tr if x[0] == 'C'][0]
                res.find('swallowed', 'handler in %s' % key, 'an exception thrown by the user\'s function is caught and not stored in the '
                         'future of the task', c[1], ep)
    fns = [f for f in common.roots(p) if is_task_root(f)]
    common.scan(ck, p, None, mkon, after=after, fns=fns, throws=fn_throws, stable=lambda a: (R.role(a) or ('',))[0] == 'exc')
    ck.require('task', 20)
    ck.require('user-call', 10)
    ck.require('captured', 1)
    ck.assumptions += ['executors, noexcept functions and copies and moves of user values do not throw']
    return ck.finish('Exceptional-path analysis of every instantiated task body: on each path on which a user function throws, the '
                     'exception is caught, and the current exception is stored in the state of that task (unless its future is gone); no '
                     'path terminates or unwinds into the executor.')


def skey(fn):
    return 'body'
