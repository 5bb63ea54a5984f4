"""C09: a process gets the executor, the buffer size and the function that it was annotated with."""
import re

import common
from absint import Interp, show
from names import last, scope

WANT = {'exec': 'executor', 'size': 'buffer size', 'f': 'function', None: 'nothing', 'upstream': 'executor of the process before', 'other': 'buffer size that was replaced'}


class Watch:
    """follows where the executor, the size and the function of a witness go"""

    def __init__(self, ck, f, ctor=False):
        self.ck, self.f, self.seen = ck, f, set()

    def label(self, t, st, d, n=0):
        if t is None or n > 12:
            return '?'
        if t in d:
            return d[t] or None
        if t.k == 'c':
            return 'a constant'
        if t.k == 'arg':
            return show(t).split('.')[0]
        e = st.env.get(t)
        if e is not None and e is not t:
            return self.label(e, st, d, n + 1)
        if t.k in ('clo', 'objcopy', 'ld'):
            return self.label(t.a[0], st, d, n + 1)
        if t.k == 'res' and last(t.a[0]) == 'executor':
            return 'upstream'
        if t.k == 'fld':
            for k, x in st.env.items():
                if k.k == 'fld' and k.a[0] is t and k.a[2] == 'has' and x.k == 'c' and x.a[0] == 0:
                    return None     # an empty optional
            if t.a[2] in ('*', 'val', '_executor', 'has'):
                return self.label(t.a[0], st, d, n + 1)
            for k, x in st.env.items():
                if k.k == 'fld' and k.a[0] is t and x.k == 'clo':
                    return self.label(x, st, d, n + 1)
        return '?'

    def __call__(self, ev, st):
        d = dict(st.tr[0]) if st.tr and isinstance(st.tr[0], frozenset) else {}
        a, q = ev.args, ev.q
        if ev.kind in ('call', 'user') and len(a) == 2 and (last(q) == last(scope(q)) or last(q) == 'operator=') and \
                (q.startswith('std::function::') or q.startswith('std::optional::') or ev.kind == 'user' and q.startswith('w::')):
            l = self.label(a[1], st, d)
            d[a[0]] = l if l is not None else 0
            if q.startswith('std::optional::'):
                for k in [k for k in d if hasattr(k, 'k') and k.k == 'fld' and k.a[0] is a[0]]:
                    d.pop(k)
        elif ev.kind == 'call' and q == 'std::optional::optional' and len(a) == 1:
            d[a[0]] = 0
        elif ev.kind == 'call' and q == 'std::optional::value_or':
            l = self.label(a[0], st, d)
            if l in (None, 0):
                l = self.label(a[1], st, d)
            if ev.res is not None:
                d[ev.res] = l
        elif ev.kind == 'call' and q == 'std::make_shared' and 'shared_process<' in ev.full:
            d['made'] = tuple(self.label(x, st, d) for x in a[:2])
        elif ev.kind in ('vcall', 'enter', 'call') and last(q) == 'set_buffer_size' and len(a) == 2:
            d['bs'] = self.label(a[1], st, d)
        st.tr = (frozenset((k, v) for k, v in d.items() if v is not None),)


def run(ck):
    p = common.load(ck, ['w_annot.cpp'])
    n = 0
    for f in p.funcs.values():
        if not f.q.startswith('w::an_'):
            continue
        names = [x[0] for x in f.args]
        want_e = 'exec' if 'exec' in names else 'upstream'
        want_s = 'size' if 'size' in names else None
        it = Interp(p, on=Watch(ck, f))
        for k, r, st in it.run(f):
            if k != 'ret':
                continue
            n += 1
            d = dict(st.tr[0]) if st.tr else {}
            if 'made' not in d:
                continue
            ck.inst('annotated', f.q)
            e, fn = d['made']
            what = 'r | ' + f.q[len('w::an_'):].replace('_', ' & ')
            if e != want_e and e != '?':
                ck.find('executor', f.q, '%s: the process runs on the %s instead of the %s' % (what, WANT.get(e, e), WANT[want_e]), what)
            if fn != 'f' and fn != '?':
                ck.find('process', f.q, '%s: the process is made of %s instead of the function' % (what, WANT.get(fn, fn)), what)
            s = d.get('bs')
            if s != want_s and s != '?':
                ck.find('size', f.q, '%s: the buffer size of the process is set to %s instead of %s' % (
                    what, WANT.get(s, s), 'the given one' if want_s else 'staying at its default'), what)
            ck.inst('known', '%s %s' % (f.q, 0 if '?' in (e, fn, s) else 1)) if '?' not in (e, fn, s) else None
    made(ck, p)
    ck.require('annotated', 12)
    ck.require('known', 8)
    ck.require('constructor', 1)
    ck.require('setter', 1)
    ck.cov['paths'] = n
    return ck.finish('Origin analysis over every path of one program for each way to write annotations (executor, buffer size, function, in every order): the '
                     'process is made with the executor, the function and the buffer size that were given, or with the executor of the process before it.')


def made(ck, p):
    """the constructor and the setter of the process keep what they are given"""
    for f in p.funcs.values():
        if scope(f.q).endswith('detail::shared_process') and last(f.q) == 'shared_process' and len(f.args) >= 4:
            seen = {}

            def on(ev, st):
                if ev.kind == 'call' and ev.q.startswith('std::function::') and len(ev.args) == 2 and ev.args[0].k == 'fld' and ev.args[0].a[2] == '_executor':
                    seen['e'] = show(ev.args[1])
                elif ev.kind == 'store' and ev.args[0].k == 'fld' and ev.args[0].a[2] == '_process_buffer_size':
                    seen['b'] = ev.val
            Interp(p, on=on).run(f)
            ck.inst('constructor', f.d)
            want = f.args[1][0]
            if seen.get('e') is None or not re.match(r'[*(]*%s\b' % re.escape(want), seen['e']):
                ck.find('executor', 'constructor', 'a process does not keep the executor that it is made with (%s)' % seen.get('e'), 'constructor of a process')
            b = seen.get('b')
            if b is not None and b.k == 'c' and b.a[0] != 1:
                ck.find('size', 'constructor', 'the default buffer size is %d: it must be 1' % b.a[0], 'constructor of a process')
        if scope(f.q).endswith('detail::shared_process') and last(f.q) == 'set_buffer_size':
            seen = {}

            def on2(ev, st):
                if ev.kind in ('store', 'call', 'rmw') and ev.args and ev.args[0].k == 'fld' and ev.args[0].a[2] == '_process_buffer_size':
                    seen['b'] = ev.val if ev.kind == 'store' else ev.args[1]
            Interp(p, on=on2).run(f)
            ck.inst('setter', f.d)
            if seen.get('b') is None or seen['b'].k != 'arg':
                ck.find('size', 'setter', 'set_buffer_size does not keep the size that it is given', 'set_buffer_size')
        if scope(f.q).endswith('detail::shared_process') and last(f.q) == 'buffer_size':
            for k, r, st in Interp(p).run(f):
                if r is not None and k == 'ret' and not (r.k in ('ld', 'res') and '_process_buffer_size' in show(r)):
                    ck.find('size', 'getter', 'buffer_size() does not return the size that was set', 'buffer_size')
