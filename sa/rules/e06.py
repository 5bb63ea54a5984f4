"""E06: a serial queue has at most one drain at a time, schedules it exactly when needed, and keeps the order of its tasks."""
import re

import common
from absint import FALSE, NULL, TRUE, mk, root, show, under
from names import last, qname, scope
from taskflow import Flow, queues, reaching

CLS = 'stlab::detail::serial_instance_t'


def is_flag(t, flags):
    return t.k == 'fld' and (t.a[1], t.a[2]) in flags


def truth(t, st):
    if t is None:
        return None
    n = False
    while t.k in ('not', 'bool', 'ld') and t.k != 'ld':
        n ^= t.k == 'not'
        t = t.a[0]
    if t.k == 'c':
        return bool(t.a[0]) ^ n
    r = st.facts.get(t)
    if r is not None and r.k == 'c':
        return bool(r.a[0]) ^ n
    return None


def run(ck):
    p = common.load(ck, common.ALL_UNITS)
    types, pops = queues(p)
    rch = reaching(p, pops)
    recs = p.by_tname.get(CLS, []) or p.by_tname.get(CLS + '::', [])
    flags = {(CLS, f[0]) for r in recs for f in r['f'] if f[1] == 'bool'}
    if len(flags) != 1:
        ck.broken('the running flag of %s is not recognised (%s)' % (CLS, flags))
        return ck.finish('')
    enq = [f for f in p.funcs.values() if f.q == CLS + '::enqueue']
    cand = [f for f in p.funcs.values() if f.m in rch and scope(f.q) == CLS and last(f.q) != 'enqueue']
    up = {f.m: reaching(p, {f.m}) for f in cand}
    drains = [f for f in cand if not any(g.m in up[f.m] and f.m not in up[g.m] for g in cand if g is not f)]

    class M:
        """('s',) section number; ('r',)/('w',)/('p',) section of the read, write and push; ('old',) value read;
        ('e',) (section, truth) of the emptiness test; ('sch',) times scheduled; ('rel',) released"""

        def __init__(self, res, fn, drain):
            self.res, self.fn, self.drain = res, fn, drain
            self.key = 'serial queue %s' % ('drain %s' % last(re.sub(r'<.*', '', fn.q)) if drain else 'submission')
            self.flow = Flow(p, self.bad, types, note=self.note)

        def bad(self, kind, text, ev):
            pass

        def find(self, kind, text, ev):
            self.res.find(kind, self.key, text, '%s:%s' % (ev.file, ev.line), common.trail(ev))

        def note(self, k, ev, c=None, *a):
            st = self.st
            d = self.flow_d()
            if k == 'take':
                self.res.inst('take', '%s:%s' % (ev.file, ev.line))
                if a[0] in ('back', 'rbegin'):
                    self.find('order', 'the task that is taken out is not the oldest one', ev)
            elif k == 'remove':
                if a[2] == 'pop_back':
                    self.find('order', 'the task that is removed is not the oldest one', ev)
            elif k == 'push':
                self.res.inst('push', '%s:%s' % (ev.file, ev.line))
                if a[0] in ('push_front', 'emplace_front'):
                    self.find('order', 'a task is queued before older ones', ev)
                self.pushed = True
            elif k == 'run':
                self.res.inst('run', '%s:%s' % (ev.file, ev.line))
                self.ran = True

        def flow_d(self):
            return self.flow.get(self.st)

        def on(self, ev, st):
            self.st = st
            self.pushed = self.ran = False
            self.flow.on(ev, st)
            d = self.flow.get(st)
            o = dict(d)
            if self.pushed:
                d[('p',)] = d.get(('s',), 0)
            if self.ran and self.drain:
                if d.get(('sch',), 0):
                    self.find('overlap', 'a task is run after the next drain was scheduled: two tasks can run at the same time', ev)
                if d.get(('rel',)):
                    self.find('overlap', 'a task is run after the queue was declared idle: two tasks can run at the same time', ev)
            k, q = ev.kind, ev.q
            if k == 'lock':
                d[('s',)] = min(3, d.get(('s',), 0) + 1)
                if not self.drain or True:
                    for x in ('w', 'e'):
                        d.pop((x,), None)
            elif k == 'load' and is_flag(ev.args[0], flags):
                if d.get(('r',), d.get(('s',), 0)) != d.get(('s',), 0) or ('ws',) in d:
                    d[('rx',)] = 1
                d[('r',)] = d.get(('s',), 0)
            elif k == 'assume':
                t, v = ev.args[0], bool(ev.val.a[0])
                while t.k == 'not':
                    t, v = t.a[0], not v
                b = t.a[0] if t.k == 'bool' else t
                if b.k == 'ld' and is_flag(b.a[0], flags):
                    if ('old',) in d and d[('old',)] != v and ('rx',) not in d:
                        d[('inf',)] = 1     # two reads in one critical section, without a write, cannot differ
                    d[('old',)] = v
                    d.setdefault(('r',), d.get(('s',), 0))
                if b.k == 'res' and last(b.a[0]) == 'empty' and len(b.a) > 1 and root(b.a[1]).k != 'al' and d.get(('ec',)) == d.get(('s',), 0):
                    d[('e',)] = (d.get(('s',), 0), v)
                    if ('sym',) in d:
                        s, neg = d.pop(('sym',))
                        self.write(d, ev, st, FALSE if v == neg else TRUE, s)
            elif q and last(q) == 'empty' and scope(q).startswith('std::') and root(ev.args[0]).k != 'al' and ev.locks:
                d[('ec',)] = d.get(('s',), 0)
            elif k == 'store' and is_flag(ev.args[0], flags):
                self.write(d, ev, st, ev.val)
            elif q in ('std::swap', 'std::exchange') and any(is_flag(a, flags) for a in ev.args):
                d[('r',)] = d.get(('s',), 0)
                i = 0 if is_flag(ev.args[0], flags) else 1
                v = st.env.get(ev.args[1 - i])
                if v is None and ev.args[1 - i].k == 'c':
                    v = ev.args[1 - i]
                self.write(d, ev, st, v)
            elif q == 'stlab::task_::task_' and len(ev.args) == 2 and CLS in ev.full and 'lambda' in ev.full:
                held = [v for a, v in st.env.items() if a.k == 'fld' and under(a, ev.args[1])]
                self.res.inst('owner', '%s:%s' % (ev.file, ev.line))
                if any(v.k == 'arg' and v.a[0] == 0 or v.k == 'al' for v in held):
                    self.find('dangling', 'the closure that is scheduled refers to the queue without keeping it alive', ev)
            elif k == 'user' and q == 'std::function::operator()' and ev.args[0].k == 'fld' and ev.args[0].a[1] == CLS:
                d[('sch',)] = min(2, d.get(('sch',), 0) + 1)
                self.res.inst('schedule', '%s:%s' % (ev.file, ev.line))
                if any(True for _ in ev.locks or ()):
                    pass
            if d != o:
                self.flow.put(st, d)

        def write(self, d, ev, st, v, sec=None):
            t = truth(v, st)
            if t is None and v is not None and self.drain:
                neg, b = False, v
                while b.k in ('not', 'bool'):
                    neg ^= b.k == 'not'
                    b = b.a[0]
                if b.k == 'res' and last(b.a[0]) == 'empty' and len(b.a) > 1 and root(b.a[1]).k != 'al' and d.get(('ec',)) == d.get(('s',), 0) \
                        and ev.locks:
                    d[('sym',)] = (d.get(('s',), 0), neg)
                    return
            if t is None:
                return self.find('flag', 'the running flag gets a value that does not say whether a drain is scheduled (%s)' % (
                    show(v)[:60] if v is not None else '?'), ev)
            s = d.get(('s',), 0) if sec is None else sec
            if not ev.locks and sec is None:
                self.find('flag', 'the running flag is changed without the mutex', ev)
            if self.drain:
                if t:
                    return
                self.res.inst('release', '%s:%s' % (ev.file, ev.line))
                e = d.get(('e',))
                if not e or e[0] != s or not e[1]:
                    self.find('idle', 'the queue is declared idle without having been seen empty in the same critical section: '
                              'a task queued in between is never run', ev)
                d[('rel',)] = 1
            else:
                if not t:
                    return self.find('flag', 'a submission declares the queue idle', ev)
                d[('w',)] = s
                d[('ws',)] = s

    def mkon(drain):
        def f(res, fn):
            m = M(res, fn, drain)
            res.x['m'] = m.key
            return m.on
        return f

    def at_end(drain):
        def after(res, fn, outs):
            key = 'serial queue %s' % ('drain %s' % last(re.sub(r'<.*', '', fn.q)) if drain else 'submission')
            where = '%s:%s' % (fn.file, fn.line)
            res.inst('drain' if drain else 'submission', fn.m)
            for k, r, st in outs:
                if k != 'ret':
                    continue
                d = dict(st.tr[0]) if st.tr else {}
                n = d.get(('sch',), 0)
                if d.get(('inf',)):
                    continue
                res.inst('path', (fn.m, n, d.get(('old',)), d.get(('e',))))
                if drain:
                    e = d.get(('e',))
                    if n > 1:
                        res.find('twice', key, 'the next drain is scheduled twice: two tasks can run at the same time', where)
                    elif n and d.get(('rel',)):
                        res.find('twice', key, 'the queue is declared idle and a drain is scheduled: two tasks can run at the same time', where)
                    elif not n and not d.get(('rel',)):
                        res.find('stuck', key, 'the drain ends with the queue marked as running and no further drain scheduled: '
                                 'tasks queued from then on are never run', where)
                    elif n and not (e and not e[1]):
                        res.find('spurious', key, 'a drain is scheduled for a queue that was not seen to hold a task', where)
                else:
                    old = d.get(('old',))
                    p_, r_, w_ = d.get(('p',)), d.get(('r',)), d.get(('ws',))
                    if p_ is None:
                        continue
                    if r_ is None or old is None:
                        if n == 0:
                            res.find('lost', key, 'there is a path on which a task is queued and no drain is scheduled although none is running', where)
                        else:
                            res.find('twice', key, 'a drain is scheduled although one may be running: two tasks can run at the same time', where)
                    elif old and n:
                        res.find('twice', key, 'a drain is scheduled although one is running: two tasks can run at the same time', where)
                    elif not old and n != 1:
                        res.find('lost', key, 'no (or more than one) drain is scheduled when none is running', where)
                    if r_ is not None and r_ != p_:
                        res.find('split', key, 'the running flag is read in another critical section than the one that queues the task', where)
                    if old is False and (w_ is None or w_ != r_):
                        res.find('split', key, 'the running flag is not set in the critical section in which it was found clear: '
                                 'two drains can be scheduled', where)
        return after
    common.scan(ck, p, None, mkon(False), after=at_end(False), fns=sorted(enq, key=lambda f: f.m), throws=lambda e: False)
    common.scan(ck, p, None, mkon(True), after=at_end(True), fns=drains, throws=lambda e: False)
    for r in p.by_tname.get('stlab::serial_queue_t::executor::', []):
        for f in r['f']:
            if CLS.split('::')[-1] in f[1]:
                ck.inst('owner', 'executor %s' % f[0])
                if not f[1].startswith('std::shared_ptr<'):
                    ck.find('dangling', 'executor of a serial queue', 'the executor refers to the queue without keeping it alive (%s)' % f[1], '')
    for k, n in (('submission', 1), ('drain', 2), ('push', 1), ('take', 1), ('run', 1), ('schedule', 2), ('release', 1), ('owner', 2)):
        ck.require(k, n)
    return ck.finish('Token protocol of the running flag decided on every path of every submission and drain: which critical section tests, '
                     'sets and clears the flag, how often a drain is scheduled, and that no task runs after the token was passed on.')
