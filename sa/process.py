"""The running latch of a channel process (shared_process): who may run a step, and that somebody does when there is work.

The latch is a token. A caller from outside (send, remove_sender, remove_receiver) wins it by finding the running flag
clear and setting it in one critical section; a downstream process returns it with clear_to_send when it releases the last
suspension. A step (the closure handed to the executor) owns the token and, on every path, gives it away exactly once: by
scheduling another step, by clearing the flag in a critical section in which there was nothing to do, or by leaving it with
the downstream processes that are to call clear_to_send.
"""
import re

import common
from absint import C, TRUE, FALSE, NULL, cmp_term, mk, root, show
from names import last, scope
from taskflow import reaching

PROC = 'stlab::detail::shared_process'
CELLS = {'_process_running': ('_process_mutex', 1), '_process_close_queue': ('_process_mutex', 1), '_process_final': ('', 1),
         '_process_suspend_count': ('', 0), '_timeout_function_active': ('_process_mutex', 1)}
OUT = {'send': 'send', 'remove_sender': 'close', 'remove_receiver': 'ready', 'clear_to_send': 'release'}


def cells(a):
    return CELLS.get(a.a[2]) if a.k == 'fld' and a.a[1] == PROC else None


def field(t):
    return t.a[2] if t.k == 'fld' and t.a[1] == PROC else None


def in_field(t, name):
    while t.k in ('fld', 'elt'):
        if field(t) == name:
            return True
        t = t.a[0]
    return False


def truth(t, st):
    if t is None:
        return None
    n = False
    while t.k in ('not', 'bool'):
        n ^= t.k == 'not'
        t = t.a[0]
    if t.k == 'c':
        return bool(t.a[0]) ^ n
    for x in (t, mk('bool', t)):
        r = st.facts.get(x)
        if r is not None and r.k == 'c':
            return bool(r.a[0]) ^ n
    return None


def norm_assume(ev):
    t, v = ev.args[0], bool(ev.val.a[0])
    while t.k in ('not',):
        t, v = t.a[0], not v
    return (t.a[0] if t.k == 'bool' else t), v


def closures(p):
    """bodies of the closures that a process hands to an executor"""
    return [f for f in p.funcs.values() if f.q.startswith(PROC + '::') and "'lambda" in f.q and last(f.q) == 'operator()'
            and task_closure(p, f)]


def task_closure(p, f):
    return any('task_' in p.dem(c) for c in p.callers.get(f.m, {}))


def outsiders(p):
    out = {}
    for f in p.funcs.values():
        if scope(f.q) in (PROC, PROC + '_sender_indexed') and last(f.q) in OUT:
            out[f.m] = OUT[last(f.q)]
    return out


def clo_type(full):
    """the closure that a task is constructed from"""
    i = full.find("'lambda")
    return full if i < 0 else full[full.find(PROC):full.rfind('(', 0, full.rfind(')'))]


def one_more(n):
    """number of downstream processes plus one; a process with a move-only result has one at most"""
    if n.k == 'c':
        return n.a[0] == 2
    return n.k == 'bin' and n.a[0] == 'add' and n.a[2] is C(1)


class Machine:
    """d: s section, run (value of the flag when first read in section), ..."""

    def __init__(self, p, res, fn, kind):
        self.p, self.res, self.fn, self.kind = p, res, fn, kind
        self.step = kind == 'step'

    def key(self):
        return '%s of a process' % {'step': 'step', 'send': 'send', 'close': 'last sender', 'ready': 'last receiver ready',
                                    'release': 'clear_to_send'}[self.kind]

    def find(self, cls, kind, text, ev=None):
        self.res.find(cls + ':' + kind, self.key(), text, '%s:%s' % (ev.file, ev.line) if ev is not None else '%s:%s' % (self.fn.file, self.fn.line),
                      ['entry point ' + common.short_fn(self.fn.d)] + (common.trail(ev) if ev is not None else []))

    def get(self, st):
        return dict(st.tr[0]) if st.tr else {}

    def on(self, ev, st):
        d = self.get(st)
        o = dict(d)
        self.ev(ev, st, d)
        if d != o:
            st.tr = (frozenset(d.items()),)

    def ev(self, ev, st, d):
        k, q = ev.kind, ev.q
        a = ev.args
        s = d.get('s', 0)
        if k == 'lock':
            d.pop('dh', None)
        if k == 'lock' and field(a[0]) == '_process_mutex':
            d['s'] = min(6, s + 1)
            for x in ('r', 'e', 'c', 'w', 'et', 'tact'):
                d.pop(x, None)
            d['in'] = 1
        elif k == 'unlock' and field(a[0]) == '_downstream_mutex':
            d['dx'] = d.get('dh')
        elif k == 'unlock' and field(a[0]) == '_process_mutex':
            d.pop('in', None)
            if 'w' in d and d['w'][0] == 'drop':
                self.dropped(d, ev, st)
            if d.get('r') is not None:
                d['lr'] = d['r']
            if 'w' in d:
                d['lw'] = d['w']
            for x, y in (('e', 'le'), ('c', 'lc'), ('tact', 'lt')):
                if x in d:
                    d[y] = d[x]
                else:
                    d.pop(y, None)
            for x in ('w', 'r'):
                d.pop(x, None)
        elif k == 'load' and cells(a[0]):
            f, v = field(a[0]), ev.res
            if f == '_process_running' and d.get('in'):
                if 'w' not in d:
                    d['r'] = truth(v, st)
                    d['rs'] = s
            elif f == '_process_close_queue':
                if 'in' in d and 'cx' not in d:
                    d['c'] = truth(v, st)
            elif f == '_process_final':
                d['fin'] = truth(v, st)
            elif f == '_timeout_function_active' and d.get('in'):
                d['tact'] = truth(v, st)
        elif k in ('store', 'rmw') and cells(a[0]):
            f, v = field(a[0]), ev.val
            if f == '_process_running':
                t = truth(v, st)
                if not d.get('in'):
                    self.find('both', 'flag', 'the running flag is changed without the process mutex', ev)
                if t is None:
                    self.find('both', 'flag', 'the running flag gets a value that is not decided by what was found in the critical section', ev)
                d['w'] = ('set' if t else 'drop', s)
            elif f == '_process_close_queue':
                t = truth(v, st)
                if t:
                    d['cs'] = s
                    d['c'] = True
                else:
                    d['ct'] = 1
                    d['c'] = False
            elif f == '_process_final':
                d['fin'] = truth(v, st)
            elif f == '_timeout_function_active':
                d['ta'] = bool(truth(v, st))
            elif f == '_process_suspend_count':
                if k == 'store':
                    self.res.inst('suspend', '%s:%s' % (ev.file, ev.line))
                    if self.step:
                        d['cnt'] = v
                        d['none'] = d.get('dx') is False and v.k == 'c' and v.a[0] > 1
                        d.pop('sent', None)
                        d.pop('sus', None)
                    elif self.kind == 'release':
                        self.released(d, v, st)
                else:
                    if d.get('was0') is not False and not (ev.res.k == 'c' and ev.res.a[0] > 0) and not one_more(ev.res):
                        self.find('stranded', 'underflow', 'a suspension is released without a test that one is left: the counter wraps and the process is never started again', ev)
                    self.released(d, v, st)
        elif k == 'assume':
            t, v = norm_assume(ev)
            if t.k == 'ld' and t.a[0].k == 'fld' and t.a[0].a[2] == 'has' and in_field(t.a[0], '_downstream'):
                d.setdefault('dh', v)       # looked at again in the same critical section: the same
            if 'et' in d and t is d['et'][0]:
                d['e'] = v ^ d['et'][1]
                d.pop('et')
            if t.k == 'cmp' and t.a[0] == 'eq' and t.a[2].k == 'c':
                x = t.a[1]
                if 'sus' in d and t is d.get('sust') and v:
                    d['sus'] = False
                if 'sust' in d and t is d['sust']:
                    d['zero'] = v
                f = field(x.a[0]) if x.k == 'ld' else None
                if f == '_process_suspend_count' and t.a[2].a[0] == 0 and 'sust' not in d:
                    d['was0'] = v
                if f == '_receiver_count' or x.k == 'bin' and x.a[1].k == 'ld' and field(x.a[1].a[0]) == '_receiver_count':
                    z = 1 if d.get('old_receiver_count') is x else 0
                    if t.a[2].a[0] == z:
                        d['rc'] = v
                    elif v:
                        d['rc'] = False
                if f == '_sender_count':
                    d['sc'] = v
                if x.k == 'ld' and x.a[0].k == 'fld' and x.a[0].a[2] == 'first' and t.a[2].a[0] in (0, 1):
                    d['y'] = v if t.a[2].a[0] == 1 else not v
            if t.k == 'lk' and not v:
                d['gone'] = 1
            if t.k == 'cmp' and t.a[2] is NULL and t.a[1].k == 'lk' and v:
                d['gone'] = 1
        elif k == 'leave' and last(q) == 'empty' and scope(q).endswith('queue_strategy') and d.get('in'):
            t = truth(ev.res, st)
            if t is not None:
                d['e'] = t
            else:
                n, x = False, ev.res
                while x.k in ('not', 'bool'):
                    n ^= x.k == 'not'
                    x = x.a[0]
                d['et'] = (x, n)
        elif k == 'rmw' and field(a[0]) in ('_receiver_count', '_sender_count'):
            d['dec' + field(a[0])] = 1
            d['old' + field(a[0])] = ev.res
        elif k in ('call', 'user') and q.startswith('std::deque::') and in_field(a[0], '_queue'):
            l = last(q)
            if l in ('emplace_back', 'push_back', 'emplace_front', 'push_front', 'insert', 'emplace'):
                d['ap'] = s if d.get('in') else 0
                self.res.inst('append', '%s:%s' % (ev.file, ev.line))
            elif l in ('pop_front', 'pop_back', 'clear', 'erase'):
                d.pop('e', None)
        elif k == 'vcall' and last(q) == 'send':
            if self.step and not self.by_user(ev):
                self.res.inst('send', '%s:%s' % (ev.file, ev.line))
                if 'cnt' not in d or 'sus' in d:
                    self.find('stranded', 'suspend', 'a value is sent before the suspension for it is counted: the receiver can release '
                              'it too early, and the process then waits for ever', ev)
                d['sent'] = 1
        elif k == 'call' and q == 'stlab::task_::task_' and len(a) == 2:
            d['clo'] = ev.full
        elif k == 'user' and q == 'std::function::operator()' and 'task_' in ev.full:
            self.passed(d, ev, st)
        elif k == 'user' and a and in_field(a[0], '_process') and last(q) not in ('state',) and not last(q).startswith('~'):
            self.res.inst('process-call', '%s:%s' % (ev.file, ev.line))
            if not self.step:
                self.find('overlap', 'outside', 'the process is called by %s, which does not own the right to run it' % self.key(), ev)
            elif d.get('n', 0) or d.get('dr', 0) or d.get('sus'):
                self.find('overlap', 'late', 'the process is called after the right to run it was given away: another thread can be running it', ev)

    def by_user(self, ev):
        """sent by the process itself (receiver | sender makes a process that owns a sender)"""
        return in_field(ev.args[0], '_process') or any(not x[0].startswith('_ZNSt') and self.p.funcs[x[0]].q.startswith('stlab::receiver')
                                                       for x in ev.stack if x[0] in self.p.funcs)

    def released(self, d, v, st):
        t = cmp_term('eq', v, C(0))
        r = truth(t, st)
        d['sust'] = t
        d['zero'] = r
        d['sus'] = r is not True
        self.res.inst('release', self.kind)

    def dropped(self, d, ev, st):
        """the running flag was cleared in the critical section that ends here"""
        d['dr'] = min(2, d.get('dr', 0) + 1)
        self.res.inst('drop', '%s:%s' % (ev.file, ev.line))
        if not self.step and self.kind != 'release':
            # the flag was clear (running || do_run)
            if d.get('r') is not False:
                self.find('overlap', 'flag', '%s clears the running flag although a step may be running' % self.key(), ev)
            d['dr'] = 0
            return
        if d.get('fin'):
            return
        if d.get('e') is not True:
            self.find('stranded', 'idle', 'the process is marked as not running without having been seen to have an empty queue in the '
                      'same critical section: a value that is queued in between is never processed', ev)
        elif d.get('c') is not False:
            self.find('stranded', 'idle', 'the process is marked as not running without a test for a pending close in the same critical '
                      'section: the close is never processed', ev)
        elif d.get('y'):
            self.find('stranded', 'idle', 'the process is marked as not running although it wants to yield', ev)

    def passed(self, d, ev, st):
        self.res.inst('schedule', '%s:%s' % (ev.file, ev.line))
        d['n'] = min(2, d.get('n', 0) + 1)
        d['at'] = (ev.file, ev.line)
        if d.get('ta') and self.step:
            self.res.x.setdefault('cancel', set()).add(d.get('clo'))
        if d.get('in'):
            # the step is scheduled inside of the critical section: the flag must already be set
            if 'w' in d:
                d['lw'] = d['w']
            d['lr'] = d.get('r')
            for x, y in (('e', 'le'), ('c', 'lc'), ('tact', 'lt')):
                if x in d:
                    d[y] = d[x]

    def infeasible(self, d):
        # a closed process has no senders left: nothing is queued and no second close arrives
        if d.get('fin') and self.step and d.get('n') and d.get('dr') == 0 and False:
            return True
        return False

    def done(self, outs):
        res, step = self.res, self.step
        for kind, ret, st in outs:
            if kind != 'ret':
                continue
            d = self.get(st)
            n, dr = d.get('n', 0), d.get('dr', 0)
            if d.get('gone') and not n and not dr:
                continue
            res.inst('path', '%s %s' % (self.fn.m, (n, dr, d.get('sus'), d.get('lr'), d.get('rc'), d.get('fin'))))
            if step:
                self.end_step(d, n, dr)
            elif self.kind == 'release':
                self.end_release(d, n, dr)
            else:
                self.end_outside(d, n)

    def end_step(self, d, n, dr):
        cnt = d.get('cnt')
        if cnt is not None and cnt.k == 'c' and cnt.a[0] == 1 and d.get('zero') is False and not n and not dr:
            return      # counted one, released one: cannot be left suspended
        if d.get('fin') and (n or dr) and (d.get('le') is False or d.get('lc')):
            return      # a closed process has no senders left
        if n > 1 or (n and dr):
            self.find('overlap', 'twice', 'a step gives away the right to run the process twice (%s): two threads can run the process at the same time' % (
                'two schedules' if n > 1 else 'schedules a step and clears the running flag'))
        elif n + dr == 0 and not d.get('sus'):
            self.res.x.setdefault('stuck', []).append((d.get('clo'), 'a path through the step neither schedules another step, nor marks the process as not '
                                                       'running, nor leaves it suspended: what is queued from then on is never processed'))
        elif n + dr == 0 and d.get('sus') and d.get('none'):
            self.find('both', 'count', 'the process waits for a receiver that it does not have')
        elif n + dr == 0 and d.get('sus') and cnt is not None and not one_more(cnt):
            self.find('both', 'count', 'the process is suspended for %s releases: it must be one for each receiver and one for itself' % show(cnt))

    def end_release(self, d, n, dr):
        if d.get('fin'):
            if n or dr:
                self.find('overlap', 'final', 'a closed process is started again')
            return
        if 'fin' not in d and (n or dr):
            self.find('overlap', 'final', 'clear_to_send %s without a test whether the process is closed' % ('starts the process' if n else 'marks the process as not running'))
        if n > 1 or n and dr:
            self.find('overlap', 'twice', 'clear_to_send starts the process twice')
        if 'sust' not in d:
            if n or dr:
                self.find('overlap', 'unreleased' if d.get('was0') else 'release', 'clear_to_send %s on a path on which it released no suspension: another thread can be running the process' % (
                    'starts the process' if n else 'marks the process as not running'))
            return
        if d.get('zero') is False:
            if n or dr:
                self.find('overlap', 'release', 'clear_to_send starts the process although it is still suspended')
        elif not n and not dr:
            self.find('stranded', 'release', 'the last suspension is released and the process is neither started nor marked as not running')
        elif d.get('zero') is None:
            self.find('overlap', 'release', 'clear_to_send starts the process without a test whether it released the last suspension')

    def end_outside(self, d, n):
        k = self.kind
        if k == 'send' and 'ap' not in d:
            if n:
                self.find('overlap', 'start', 'the process is started without anything having been queued')
            return
        if k == 'close' and 'dec_sender_count' in d and d.get('sc') is False and not n:
            return
        if k == 'ready' and 'dec_receiver_count' in d and d.get('rc') is not True and not n:
            return
        if k == 'ready' and 'dec_receiver_count' not in d and not n:
            return
        r, w = d.get('lr'), d.get('lw')
        if k == 'send' and not (0 < d['ap'] <= d.get('rs', 99)):
            self.find('stranded', 'split', 'the value is queued after the critical section that tests the running flag, or without the mutex')
        if k == 'close' and 'cs' not in d:
            self.find('stranded', 'close', 'the last sender goes and the close is not recorded')
        elif k == 'close' and d['cs'] > d.get('rs', 99):
            self.find('stranded', 'split', 'the close is recorded after the critical section that tests the running flag')
        if n > 1:
            self.find('overlap', 'twice', 'two steps are scheduled')
        if n:
            if r is None and not d.get('lt'):
                self.find('overlap', 'latch', 'a step is scheduled without a test whether one is running')
            elif r and not d.get('lt'):
                self.find('overlap', 'latch', 'a step is scheduled although one is running')
            elif r is False and (w is None or w[0] != 'set'):
                self.find('overlap', 'latch', 'the running flag is not set in the critical section in which it was found clear: two steps can run')
            if k != 'ready' and d.get('rc') is not True:
                self.find('order', 'attach', 'the process is started before its receivers are ready')
        else:
            if r is False and w is not None and w[0] == 'set':
                self.find('stranded', 'latch', 'the running flag is set and no step is scheduled')
            elif r and d.get('lt'):
                if k == 'send' and d.get('rc') is not False:
                    self.find('stranded', 'timeout', 'a value does not preempt the timeout of a waiting process')
            elif r:
                if k == 'send' and d.get('rc') is True and d.get('lt') is not False:
                    self.find('stranded', 'timeout', 'a value is queued without a test whether the waiting process can be preempted')
            elif k == 'ready':
                if d.get('le') is True and d.get('lc') is False:
                    pass
                elif r is None and d.get('le') is True and d.get('lc') is None:
                    self.find('stranded', 'start', 'a pending close is not looked at when the last receiver is ready')
                else:
                    self.find('stranded', 'start', 'the last receiver is ready, something is pending, and no step is scheduled although none is running')
            elif d.get('rc') is False:
                pass
            else:
                self.find('stranded', 'start', 'no step is scheduled although none is running and the receivers are ready')


def analyse(ck, p, classes):
    outs = outsiders(p)
    steps = closures(p)
    deq = reaching(p, {m for m, f in p.funcs.items() if last(f.q) == 'pop_front' and scope(f.q).endswith('queue_strategy')})

    def devirt(ev, targets):
        if last(ev.q) == 'clear_to_send' and '_process' not in ev.q.split('::')[-1]:
            a = ev.args[0]
            if a.k == 'd' and a.a[0].k in ('lk', 'ld') or a.k == 'arg':
                ts = [t for t in targets if scope((t.q if hasattr(t, 'q') else p.funcs[t].q)) == PROC]
                return ts if is_self(a) else []
        return []

    def is_self(a):
        while a.k in ('d', 'lk', 'ptrh'):
            a = a.a[0]
        return not (a.k == 'ld' and any(x in show(a) for x in ('_upstream', '_downstream', '_data')))

    def throws(ev):
        return ev.kind == 'user' and bool(ev.args) and in_field(ev.args[0], '_process') and last(ev.q) not in ('state',)

    def go(fns, kind):
        def mkon(res, fn):
            m = Machine(p, res, fn, kind(fn))
            res.x['m'] = m
            return m.on

        def after(res, fn, os_):
            m = res.x.pop('m')
            m.done(os_)
            res.inst(m.kind, fn.m)
            for clo, msg in res.x.pop('stuck', []):
                res.x.setdefault('stk', []).append((fn.m, fn.d, '%s:%s' % (fn.file, fn.line), msg))
        return common.scan(ck, p, None, mkon, after=after, fns=fns, throws=throws, devirt=devirt, cells=cells)
    go([p.funcs[m] for m in sorted(outs)], lambda f: outs[f.m])
    rs = go(sorted(steps, key=lambda f: f.m), lambda f: 'step')
    cancel = set()
    for r in rs:
        cancel |= r.x.get('cancel', set())
    for r in rs:
        for m, d_, where, msg in r.x.get('stk', []):
            body = d_[:d_.rfind('::operator()')].replace('auto ', '')
            if m not in deq:
                ck.inst('generator', m)
                continue
            if any(c and body[body.find(PROC):] in c for c in cancel):
                ck.inst('timeout', m)
                continue
            ck.find('stranded:stuck', 'step of a process', msg, where, ['entry point ' + common.short_fn(d_)])
    for k in list(ck.findings):
        if not k[0].startswith(classes) and not k[0].startswith('both'):
            del ck.findings[k]
