"""F06: reading a future never takes the value away from other holders of the same future."""
import common
from absint import deref, show
from futures import Roles, sub
from guarded import mutates
from names import last, scope
from rules.f01 import frame


def moves(ev, i):
    f = ev.full
    ln = last(ev.q)
    if i == 0 or '&&' not in f:
        return False
    if '::operator=' in ev.q or ln == scope(ev.q)[scope(ev.q).rfind('::') + 2:]:
        par = f[f.rfind('('):] if ln != 'operator=' else f[f.rfind('operator='):]
        return '&&' in par
    return False


def run(ck):
    p = common.load(ck, common.ALL_UNITS)
    R = Roles(p)

    def mkon(res, fn):
        ep = ['entry point ' + common.short_fn(fn.d)]

        def on(ev, st):
            k = ev.kind
            if k == 'assume':
                t, v = ev.args[0], bool(ev.val.a[0])
                if t.k == 'cmp' and t.a[0] == 'eq' and t.a[2].k == 'c' and t.a[2].a[0] == 1 and v:
                    x = t.a[1]
                elif t.k == 'cmp' and t.a[0] == 'slt' and v and t.a[2].k == 'c' and t.a[2].a[0] == 2:
                    x = t.a[1]
                elif t.k == 'bool' and v:
                    x = t.a[0]
                else:
                    return
                if x.k == 'res' and short(x.a[0]) in ('use_count', 'unique') and len(x.a) > 2:
                    return [('U', show(deref(y).c)) for y in (x.a[2],)]
                return
            if k not in ('user', 'call'):
                return
            for i, a in enumerate(ev.args):
                r = R.role(a)
                if not r or r[0] != 'res':
                    continue
                if 'w::mov' in ev.full or 'monostate' in ev.full or 'coroutine' in ev.full:
                    continue
                out = moves(ev, i) or last(ev.q) in ('swap', 'exchange', 'reset') or i == 0 and last(ev.q) == 'operator=' and \
                    ev.val is not None and ev.val.k == 'null'
                res.inst('value-read', '%s in %s' % (ev.q, frame(ev)))
                if not out:
                    continue
                res.inst('move-out', '%s in %s' % (ev.q, frame(ev)))
                o = show(r[1].c)
                if not any(x[0] == 'U' and x[1] == o for x in st.tr):
                    res.find('moved-while-shared', 'value moved out in %s' % frame(ev),
                             'the value is moved out of the shared state without having found that this is the only future that '
                             'holds it', ev.where(), ep + common.trail(ev))
        return on
    common.scan(ck, p, None, mkon)
    ck.require('value-read', 2)
    ck.require('move-out', 1)
    return ck.finish('Effect analysis on the stored value of copyable futures: on every path a move out of it must be dominated by a '
                     'test that the handle through which it is read is the only one.')


def short(q):
    return q[q.rfind('::') + 2:] if '::' in q else q
