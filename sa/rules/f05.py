"""F05: then runs its function with the value only; errors pass through unchanged; recover runs in both cases."""
import re

import common
from absint import mk, show
from futures import SB, Roles, fn_throws, is_task_root, of_lock, sub
from names import last, scope

FUT = re.compile(r'\bstlab::(?:v\w+::)?future<')
MONO = re.compile(r'monostate')


def functor_kind(ev):
    """'recover' when the user's function takes a future, else 'value'"""
    a = ev.full[ev.full.rfind('operator()(') + 10:]
    return 'recover' if FUT.search(a) else 'value'


def void_result(ev):
    return bool(re.match(r'^w::\w+<void\b', ev.full)) or ev.full.startswith('void ')


def run(ck):
    p = common.load(ck, common.ALL_UNITS)
    R = Roles(p)

    def mkon(res, fn):
        ep = ['entry point ' + common.short_fn(fn.d)]
        this = mk('arg', 0, fn.args[0][0])

        def own(o):
            if of_lock(o) is not None:
                return True
            o = o.c
            return o is this or o.k == 'd' and o.a[0].k == 'ptrh' and o.a[0].a[0] is this

        def on(ev, st):
            k = ev.kind
            if ('I',) in st.tr:
                return            # continuations receive ready futures
            if k == 'user' and ev.q.startswith('w::') and last(ev.q) == 'operator()' and not ev.q.startswith('w::exec'):
                kind = functor_kind(ev)
                res.inst('user-call', ev.full[:110])
                fr = [ev.fn] + [c for m, c, l in ev.stack]
                via_then = any(f.q.startswith('stlab::future::then') for f in fr)
                if via_then:
                    res.inst('then-call', ev.full[:110])
                    if not any(x[0] == 'EX' and not x[2] for x in st.tr):
                        res.find('runs-despite-error', 'function of then', 'the function passed to then is run on a path that has not found '
                                 'the future free of an error', ev.where(), ep + common.trail(ev))
                if any(x[0] == 'EX' and x[2] for x in st.tr) and kind == 'value':
                    res.find('runs-despite-error', 'function of then', 'the function passed to then is run although the future holds an '
                             'error', ev.where(), ep + common.trail(ev))
                return ('F', kind, via_then, void_result(ev))
            if k == 'assume':
                t, v = ev.args[0], bool(ev.val.a[0])
                if t.k == 'bool' and t.a[0].k == 'lk':
                    return ('L', v)
                o = R.ready_term(t)
                if o is not None and not own(o) and v == (t.k == 'cmp' and t.a[2].a[0] == 0):
                    return ('I',)
                for x in sub(t):
                    if x.k == 'fld':
                        r = R.role(x)
                        if r and r[0] == 'exc' and not own(r[1]):
                            if t.k == 'bool' or t.k == 'ld':
                                return ('EX', show(r[1].c), v)
                            if t.k == 'cmp':
                                return ('EX', show(r[1].c), not v)
                        break
                return
            if k == 'throw':
                return ('T',)
            if k in ('call', 'store', 'user') and ev.args:
                r = R.role(ev.args[0])
                if not r or not own(r[1]):
                    return
                v = ev.val if ev.val is not None else (st.env.get(ev.args[1]) if len(ev.args) > 1 else None)
                if r[0] == 'exc' and last(ev.q) == 'operator=':
                    good = v is not None and any(x.k == 'res' and x.a[0] == 'current_exception' or
                                                 x.k == 'ld' and (R.role(x.a[0]) or ('',))[0] == 'exc' for x in sub(v))
                    return ('S', 'error' if good else 'other error')
                if r[0] == 'res' and last(ev.q) in ('operator=', 'emplace'):
                    src = v if v is not None else mk('u')
                    good = any(x.k == 'res' and x.a[0].startswith('w::') and x.a[0].endswith('operator()') for x in sub(src))
                    return ('S', 'result' if good else 'value')
        return on

    def after(res, fn, outs):
        res.inst('task', fn.m)
        where = '%s:%s' % (fn.file, fn.line)
        ep = ('entry point ' + common.short_fn(fn.d),)
        kinds = {x[1:] for o in outs for x in o[2].tr if x[0] == 'F'}
        looks = any(x[0] == 'EX' for o in outs for x in o[2].tr)
        joined = 'when_a' in fn.d[:fn.d.find('>(') if '>(' in fn.d else None] or 'context_result' in fn.d
        rec = any(k[0] == 'recover' for k in kinds)
        for kind, r, st in outs:
            if kind != 'ret' or ('I',) in st.tr:
                continue
            fs = [x for x in st.tr if x[0] == 'F']
            ss = [x[1] for x in st.tr if x[0] == 'S']
            dead = ('L', False) in st.tr
            ex = [x[2] for x in st.tr if x[0] == 'EX']
            if any(x[2] for x in st.tr if x[0] == 'EX') and any(not x[2] for x in st.tr if x[0] == 'EX') and not joined:
                continue          # the error of a ready future does not change
            if len(fs) > 1:
                res.find('runs-twice', 'task body', 'the user\'s function is called twice', where, ep)
            if kinds and not fs:
                if rec:
                    res.find('recover-skipped', 'function of recover', 'the function passed to recover is not called on every path', where, ep)
                elif not any(ex) and not joined:
                    res.find('then-skipped', 'task body', 'the user\'s function is not called although the future holds no error', where, ep)
            if dead or joined:
                continue
            if any(ex) and not fs and looks:
                res.inst('error-forwarded', fn.m)
                if 'error' not in ss:
                    res.find('error-lost', 'task body', 'the error of the future is not passed on to the future returned', where, ep)
            if fs and ('T',) not in st.tr and ss and ss[-1] == 'value' and not fs[-1][3]:
                res.find('wrong-result', 'task body', 'the value stored in the future is not the result of the user\'s function', where, ep)
            if fs and ss and ss[-1] == 'result':
                res.inst('result-stored', fn.m)
    fns = [f for f in common.roots(p) if is_task_root(f)]
    common.scan(ck, p, None, mkon, after=after, fns=fns, throws=fn_throws, stable=lambda a: (R.role(a) or ('',))[0] == 'exc')
    ck.require('task', 20)
    ck.require('then-call', 4)
    ck.require('user-call', 12)
    ck.require('error-forwarded', 4)
    ck.require('result-stored', 4)
    ck.assumptions += ['executors, noexcept functions and copies and moves of user values do not throw']
    return ck.finish('Path analysis of every instantiated task body: the function of then is called exactly on the paths that found no error '
                     'in the antecedent future, the function of recover on all of them; where it is not called the antecedent\'s error is '
                     'what the new future receives, where it returns its result is.')
