"""What a step of a channel process does with the values, errors and closes that it takes from its queue.

One pass over every path of every step (the closure handed to the executor, including timers) and of every send. The
verdicts are grouped: C04 close, C05 errors, C06 back-pressure, C07 delivery.
"""
import re

import common
import process
from taskflow import reaching
from absint import C, NULL, TRUE, FALSE, mk, show
from names import last, scope
from process import PROC, field, in_field, truth, norm_assume, one_more

QS = {'_index', '_popped_index'}
CALLS = ('operator()', 'await')


def cells(a):
    if a.k == 'fld' and a.a[2] in QS and 'queue_strategy' in a.a[1]:
        return ('', 0)
    return process.cells(a)


def qindex(t):
    """index of the queue that an address below _queue denotes"""
    i, inq = 0, False
    while t.k in ('fld', 'elt'):
        if t.k == 'fld' and t.a[1] == 'tuple' and not inq:
            i = int(t.a[2]) if t.a[2].isdigit() else -1
            inq = True
        if field(t) == '_queue':
            return i
        t = t.a[0]
    return None


def uindex(t):
    """index of the upstream process that a pointer or object denotes"""
    i = 0
    while True:
        if t.k in ('d', 'ld', 'lk', 'ptrh', 'bool'):
            t = t.a[0]
        elif t.k in ('fld', 'elt'):
            if t.k == 'fld' and t.a[1] == 'tuple':
                i = int(t.a[2]) if t.a[2].isdigit() else -1
            if field(t) == '_upstream':
                return i
            t = t.a[0]
        else:
            return None


def mindex(t):
    """position in the message that an argument is taken from"""
    while t.k in ('fld', 'elt', 'ld', 'd', 'res'):
        if t.k == 'fld' and t.a[1] == 'tuple' and t.a[2].isdigit():
            return int(t.a[2])
        if not t.a or not hasattr(t.a[0], 'k'):
            return None
        t = t.a[0]
    return None


def in_process(t):
    """the process, held by value or by reference"""
    while t.k in ('fld', 'elt', 'd', 'ld'):
        if field(t) == '_process':
            return True
        t = t.a[0]
    return False


def ptypes(full):
    s = full[:full.rfind(')') + 1]
    n = 0
    for i in range(len(s) - 1, -1, -1):
        n += (s[i] == ')') - (s[i] == '(')
        if n == 0:
            return s[i + 1:-1]
    return ''


def lin(t):
    """t = base + constant"""
    if t.k == 'bin' and t.a[0] == 'add' and t.a[2].k == 'c':
        b, c = lin(t.a[1])
        return b, c + t.a[2].a[0]
    if t.k == 'c':
        return None, t.a[0]
    return t, 0


def targs(s):
    """top-level template arguments of the text after the first <"""
    i = s.find('<')
    out, n, cur = [], 0, ''
    for ch in s[i:]:
        if ch in '<(':
            n += 1
            if n == 1:
                continue
        if ch in '>)':
            n -= 1
            if n == 0:
                break
        if ch == ',' and n == 1:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()]


class Kind:
    """static facts about the process that a step runs"""

    def __init__(self, p, fn):
        d = fn.d[fn.d.find(PROC + '<'):]
        d = d.replace('stlab::v0_0_0::', 'stlab::')
        ta = targs(d)
        self.strategy = ta[0]
        self.process = re.sub(r'^std::reference_wrapper<(.*)>$', r'\1', ta[1])
        self.args = ta[3:]
        self.res = ta[2]
        self.zip = 'zip_with' in self.strategy
        self.n = len(self.args)
        self.plain = not re.match(r'w::(proc|gen)', self.process)
        self.closes = bool(re.match(r'w::(proc2?|proc_close)<', self.process))
        self.errors = bool(re.match(r'w::(proc2?)<', self.process))
        # the first process of channel<void>() has no sender
        self.void = self.args == ['void'] and self.plain
        self.generator = self.process.startswith('w::gen')


_mf = {}


def free_buffer_readers(p):
    """functions of the sending side that ask a receiver for the room in its buffer"""
    if id(p) not in _mf:
        own = {m for m, f in p.funcs.items() if last(f.q) == 'free_buffer' and scope(f.q) == 'stlab::sender'}
        _mf[id(p)] = reaching(p, own) - own
    return _mf[id(p)]


class Machine:
    def __init__(self, p, res, fn):
        self.p, self.res, self.fn = p, res, fn
        self.kind = Kind(p, fn)
        self.name = 'step of a process (%s, %s)' % ('merged' if self.kind.n > 1 else 'single', 'function' if self.kind.plain else 'await/yield')
        self.mf = free_buffer_readers(p)

    def find(self, prop, rule, text, ev=None):
        self.res.find(prop + ':' + rule, 'step of a process', text, '%s:%s' % (ev.file, ev.line) if ev is not None else '%s:%s' % (self.fn.file, self.fn.line),
                      ['entry point ' + common.short_fn(self.fn.d)] + (common.trail(ev) if ev is not None else []))

    def on(self, ev, st):
        d = dict(st.tr[0]) if st.tr else {}
        o = dict(d)
        self.ev(ev, st, d)
        if d != o:
            st.tr = (frozenset(d.items()),)

    # ------------------------------------------------------------
    def ev(self, ev, st, d):
        if d.get('inf') or self.kind.void:
            return
        k, q, a = ev.kind, ev.q or '', ev.args
        inst = self.res.inst
        where = '%s:%s' % (ev.file, ev.line)
        if k == 'lock' and field(a[0]) == '_process_mutex':
            if d.get('it', 0) < 0:
                self.find('C07', 'receivers', 'a receiver is skipped when a result is sent', ev)
            for x in ('it', 'ns', 'sl'):
                d.pop(x, None)
            for x in list(d):
                if x[0] == 'E' or x in ('e', 'et', 'pp', 'fr', 'c', 'ct', 'fs'):
                    d.pop(x)
            d['in'] = 1
        elif k == 'unlock' and field(a[0]) == '_process_mutex':
            self.section(ev, d)
            d.pop('in', None)
        elif k == 'assume':
            self.assume(ev, st, d)
        elif k == 'leave' and last(q) == 'empty' and scope(q).endswith('queue_strategy') and d.get('in'):
            t = truth(ev.res, st)
            if t is not None:
                d['e'] = t
            else:
                n, x = False, ev.res
                while x.k in ('not', 'bool'):
                    n ^= x.k == 'not'
                    x = x.a[0]
                d['et'] = (x, n)
        elif k in ('load', 'store', 'rmw') and cells(a[0]):
            self.cell(ev, st, d, field(a[0]))
        elif k in ('call', 'user', 'dtor') and q.startswith('std::deque::') and in_field(a[0], '_queue'):
            self.queue(ev, d, last(q), where)
        elif k == 'leave' and ev.res is C(0) and scope(q).endswith('detail::downstream') and ev.m not in self.mf and last(q) == 'size':
            d['n0'] = True
        elif k == 'leave' and ev.m in self.mf and ev.res is not None and not (ev.res in (TRUE, FALSE) and 'bool' in ev.full[:5]) and ev.res.k not in ('cmp', 'not', 'bool'):
            if ev.res not in d.get('mf', ()):
                d['mf'] = d.get('mf', ())[-3:] + (ev.res,)
                d.pop('mfr', None)
            if ev.res.k == 'c':
                d['mfr'] = ev.res.a[0] > 1
        elif k == 'vcall' and last(q) == 'clear_to_send' and uindex(a[0]) is not None:
            self.cts(ev, d, uindex(a[0]), where)
        elif k == 'vcall' and last(q) == 'send' and not self.by_user(ev):
            inst('send', where)
            self.sent(d, ev)
            exc = ptypes(self.p.dem(ev.extra[0])) == 'std::__exception_ptr::exception_ptr' if ev.extra else None
            if 'bk' not in d:
                self.find('C07', 'broadcast', 'something is sent that is not a result of the process', ev)
            elif exc is not None and exc != (d['bk'] == 'exc'):
                if exc:
                    self.find('C05', 'kind', 'an error is sent although the process returned a result', ev)
                else:
                    self.find('C05', 'kind', 'a value is sent although the process threw', ev)
        elif k == 'call' and q == 'std::holds_alternative' and a:
            t = ev.res
            if t is not None:
                d['ha'] = (t, 'exception_ptr' in ev.full[:ev.full.rfind('(')].split('>', 1)[0][:80], mindex(a[0]) or 0)
        elif k == 'call' and q == 'std::reference_wrapper::operator()' and in_process(a[0]):
            self.user(ev, d, last(q), where)
        elif k == 'user' and a and in_process(a[0]) and not last(q).startswith('~') and last(q) not in ('state', last(scope(q))) or \
                k == 'enter' and a and d.get('call', '')[:1] != '@' and in_process(a[0]) and last(q) in CALLS + ('yield', 'close', 'set_error') and not q.startswith('std::'):
            self.user(ev, d, last(q), where)
        elif k == 'user' and last(q) == last(scope(q)) and len(a) == 2:
            # an argument is built from a part of the message
            i = mindex(a[1])
            if i is not None and a[0].k == 'al':
                d['A%s' % id(a[0])] = i
        elif k == 'lpad' and 'call' in d:
            # the process threw
            c = d.pop('call')
            d['res'] = 'exc'
            d.pop('clp', None)
            d.pop('tk', None)
            inst('throw', c)
        elif k == 'throw' and d.get('bk') == 'exc':
            d['rt'] = 1
        elif k == 'catch':
            d.pop('rt', None)
        elif k == 'terminate' and (d.get('res') == 'exc' or d.get('rt')):
            self.find('C05', 'escape', 'an exception thrown by the process ends the program', ev)
        elif k in ('call', 'user') and any(in_field(x, '_downstream') for x in a):
            self.down(ev, d, last(q), where)
        elif k in ('call', 'user') and a and field(a[0]) == '_process' and last(q) in ('operator=', 'reset'):
            inst('process-end', where)
            d['pe'] = 1
            if not d.get('fin'):
                self.find('C04', 'end', 'the process is destroyed although no close was taken', ev)
        elif k == 'user' and q == 'std::function::operator()' and 'task_' in ev.full:
            d['sch'] = 1
        elif k == 'call' and q == 'std::_Deque_iterator::operator++' and 'bk' in d and d.get('it') is not None:
            if d['it'] < 0:
                self.find('C07', 'receivers', 'a receiver is skipped when a result is sent', ev)
            d['it'] = max(-1, d['it'] - 1)
        c = d.get('call')
        if c and (c[0] != '@' and k not in ('assume', 'load', 'lpad', 'user', 'enter') or c[0] == '@' and k == 'leave' and last(q) == c.split(' ')[0][1:]
                  and in_process(a[0])):
            self.returned(d)

    def returned(self, d):
        """the last call of the process returned"""
        c = d.pop('call', None)
        if c and c.split(' ')[0].strip('@') in ('operator()', 'yield'):
            d['res'] = 'val'

    # ------------------------------------------------------------
    def by_user(self, ev):
        return in_field(ev.args[0], '_process') or any(x[0] in self.p.funcs and self.p.funcs[x[0]].q.startswith('stlab::receiver') for x in ev.stack)

    def section(self, ev, d):
        fr, pp = d.get('fr', ()), d.get('pp', ())
        if fr:
            self.find('C07', 'removed', 'a value is taken from the queue and not removed from it in the same critical section', ev)
        if pp:
            want = tuple(range(self.kind.n)) if self.kind.zip else None
            if want is not None and tuple(sorted(pp)) != want:
                self.find('C07', 'one', 'a step of a zipped process takes values from the queues %s of %d' % (list(pp), self.kind.n), ev)
            if want is None and len(pp) != 1:
                self.find('C07', 'one', 'one message is made of values from the queues %s' % list(pp), ev)
            if 'tk' in d:
                self.unused(d, ev)
            d['tk'] = tuple(sorted(pp))
            d['cp'] = tuple(sorted(pp))
            for x in list(d):
                if x[0] == 'X':
                    d.pop(x)
        if d.get('ct') and not d.get('fin'):
            self.find('C04', 'final', 'the close is taken and the process is not marked as closed in the same critical section', ev)
        if d.get('fs') and not d.get('ct'):
            self.find('C04', 'final', 'the process is marked as closed although no close was taken', ev)
        for x in ('fr', 'pp', 'ct', 'fs') + tuple(x for x in d if x[0] == 'S'):
            d.pop(x, None)

    def assume(self, ev, st, d):
        t, v = norm_assume(ev)
        if 'et' in d and t is d['et'][0]:
            d['e'] = v ^ d['et'][1]
            d.pop('et')
        if t.k == 'res' and t.a[0] == 'std::empty' and d.get('in'):
            i = qindex(t.a[1])
            if i is not None:
                o = d.get('E%d' % i)
                if o is not None and o != v:
                    d['inf'] = 1
                d['E%d' % i] = v
        if t.k == 'cmp' and t.a[0] == 'eq' and t.a[1].k == 'res' and t.a[1].a[0] == 'std::index' or \
                t.k == 'cmp' and t.a[0] == 'eq' and t.a[1].k == 'res' and last(t.a[1].a[0]) == 'index':
            c = t.a[2].a[0] if t.a[2].k == 'c' else None
            if c in (0, 1):
                self.error(d, mindex(t.a[1].a[1]) or 0, v if c == 1 else not v)
        if t.k == 'ld' and t.a[0].k == 'fld' and t.a[0].a[2] == 'has' and field(t.a[0].a[0]) == '_process' and not v and 'pe' not in d:
            d['inf'] = 1    # the process is there until the step that ends it
        if 'ha' in d and t is d['ha'][0]:
            self.error(d, d['ha'][2], v if d['ha'][1] else not v)
        if t.k == 'ld' and t.a[0].k == 'fld' and t.a[0].a[2] == 'has' and in_field_any(t, '_downstream'):
            d['n0'] = d.get('n0') or not v
        if t.k == 'cmp' and t.a[0] == 'eq' and t.a[2] is C(0) and t.a[1].k == 'res' and t.a[1].a[0] == 'std::size' and in_field_any(t.a[1], '_downstream'):
            d['n0'] = d.get('n0') or v
        if 'mf' in d and t.k == 'cmp' and t.a[0] == 'ult' and t.a[1].k == 'c' and t.a[2] in d['mf']:
            if t.a[1].a[0] >= 1 and v or t.a[1].a[0] <= 1 and not v:
                d['mfr'] = v
        if 'mf' in d and t.k == 'cmp' and t.a[0] == 'ult' and t.a[2].k == 'c' and t.a[1] in d['mf']:
            if t.a[2].a[0] >= 2 and not v or t.a[2].a[0] <= 2 and v:
                d['mfr'] = not v
        if t.k == 'cmp' and t.a[0] == 'ult':
            self.room(d, t.a[1], t.a[2], v)
        if not v and uindex(t) is not None:
            d['X%d' % uindex(t)] = 'null'
        if v and t.k == 'cmp' and t.a[0] == 'eq' and t.a[2] is NULL and uindex(t.a[1]) is not None:
            d['X%d' % uindex(t.a[1])] = 'null'
        if t.k == 'lk' and not v and in_field_any(t, '_downstream') and 'bk' in d and d.get('it') is not None:
            self.sent(d, ev)
        if t.k == 'cmp' and t.a[0] == 'eq' and v and t.a[1].k == 'res' and t.a[1].a[0] == 'std::size' and in_field_any(t.a[1], '_downstream') and 'bk' in d \
                and t.a[2].k == 'c' and d.get('sl'):
            if d.get('ns', 0) != t.a[2].a[0] and d.get('ns', 0) < 3:
                self.find('C07', 'receivers', 'a result is sent to %d of %d receivers' % (d.get('ns', 0), t.a[2].a[0]), ev)

    def sent(self, d, ev):
        d['it'] = min(2, d.get('it', 0) + 1)
        d['ns'] = min(3, d.get('ns', 0) + 1)
        if d['it'] > 1:
            self.find('C07', 'receivers', 'a result is sent twice to a receiver', ev)

    def error(self, d, i, v):
        # several arguments: an error in any of them
        if v:
            d['er'] = True
        d['T%d' % i] = True

    def room(self, d, x, y, v):
        """whether a queue has room: size <= buffer - 1, size being the size after the removal"""
        (bx, cx), (by, cy) = lin(x), lin(y)
        if bx is None or by is None:
            return
        sz = lambda t: t.k == 'res' and t.a[0] == 'std::size' and qindex(t.a[1]) is not None
        bf = lambda t: t.k == 'ld' and field(t.a[0]) == '_process_buffer_size'
        if bf(bx) and sz(by):            # buf + cx < size + cy
            i, c, hold = qindex(by.a[1]), cx - cy, not v
        elif sz(bx) and bf(by):          # size + cx < buf + cy
            i, c, hold = qindex(bx.a[1]), cy - cx - 1, v
        else:
            return
        c -= d.get('S' + show(by if bf(bx) else bx)[-200:], 0)
        self.res.inst('room', str(i))
        if c != -1:
            self.find('C06', 'limit', 'the room in a queue is judged by size <= buffer_size %+d: it must be size < buffer_size' % c)
        if d.get('X%d' % i) != 'null':
            d['X%d' % i] = 'room' if hold else 'full'

    def cts(self, ev, d, j, where):
        self.res.inst('release-upstream', where)
        cp = d.get('cp', ())
        x = d.get('X%d' % j)
        if j not in cp:
            if x != 'room?':
                # a queue nothing was taken from: only without a limit (buffer size 0)
                if x in ('room', 'full') or not cp:
                    self.find('C06', 'spurious', 'an upstream process is told to go on although nothing was taken from its queue', ev)
            return
        if x == 'done':
            self.find('C06', 'twice', 'an upstream process is told twice to go on for one value: it stops counting its other receivers', ev)
        elif x == 'full':
            self.find('C06', 'early', 'an upstream process is told to go on although its queue is full', ev)
        elif x != 'room':
            self.find('C06', 'early', 'an upstream process is told to go on without a look at how full its queue is', ev)
        d['X%d' % j] = 'done'

    def settle(self, d, ev=None):
        for j in d.get('cp', ()):
            x = d.get('X%d' % j)
            if x == 'room':
                self.find('C06', 'missing', 'a queue has room again and the upstream process is not told to go on: it stays suspended', ev)
            elif x is None:
                self.find('C06', 'missing', 'a value is taken from a queue and nothing looks at whether the upstream process can go on', ev)
            else:
                self.res.inst('settled', x)
        d.pop('cp', None)

    def queue(self, ev, d, ln, where):
        i = qindex(ev.args[0])
        inst = self.res.inst
        if ln in ('front', 'operator[]', 'at', 'back', 'begin'):
            if ln == 'front':
                inst('front', where)
                if not d.get('in'):
                    self.find('C07', 'section', 'the queue is read outside of the critical section', ev)
                if d.get('E%d' % i) is not False:
                    self.find('C07', 'empty', 'a value is taken from a queue that was not seen to be non-empty in the same critical section', ev)
                if i in d.get('fr', ()):
                    self.find('C07', 'removed', 'the same value is taken twice', ev)
                d['fr'] = d.get('fr', ()) + (i,)
        elif ln == 'pop_front':
            inst('pop', where)
            fr = list(d.get('fr', ()))
            if i not in fr:
                self.find('C07', 'removed', 'a value is removed from a queue without having been taken (or from another queue than the one it was taken from)', ev)
            else:
                fr.remove(i)
            if d.get('cp'):
                self.settle(d, ev)
            d['fr'] = tuple(fr)
            d['pp'] = d.get('pp', ()) + (i,)
            d.pop('E%d' % i, None)
            d.pop('e', None)
        elif ln in ('pop_back', 'clear', 'erase', 'swap', 'resize', 'operator='):
            self.find('C07', 'removed', 'values are removed from a queue by %s' % ln, ev)
        elif ln == 'size' and ev.res is not None:
            if i not in d.get('pp', ()) and i in d.get('fr', ()):
                d['S' + show(ev.res)[-200:]] = 1

    def user(self, ev, d, ln, where):
        self.returned(d)
        k = self.kind
        inst = self.res.inst
        if ln in CALLS:
            inst('process-value', where)
            tk = d.pop('tk', None)
            if tk is None and not (k.args == ['void']):
                self.find('C07', 'processed', 'the process is called with a value that was not taken from its queue, or twice with the same', ev)
            elif tk is not None:
                n = k.n if k.zip else 1
                if d.get('er'):
                    self.find('C05', 'value', 'the process is called with a value although an error was received', ev)
                elif any('T%d' % i not in d for i in range(n)):
                    self.find('C05', 'value', 'the process is called without a test whether an argument is an error', ev)
                for pos, x in enumerate(ev.args[1:]):
                    i = d.get('A%s' % id(x))
                    if i is None:
                        i = mindex(x)
                    if i is not None and k.zip and len(ev.args) - 1 == k.n and i != pos:
                        self.find('C07', 'order', 'argument %d of the process is the value from queue %d' % (pos, i), ev)
                    if i is not None:
                        inst('argument', '%s %s' % (where, pos))
            self.clear_msg(d)
        elif ln == 'set_error':
            inst('set-error', where)
            if d.pop('tk', None) is None or not d.get('er'):
                self.find('C05', 'spurious', 'the process is told of an error that it did not receive', ev)
            self.clear_msg(d)
        elif ln == 'close':
            inst('process-close', where)
            if d.get('clp'):
                d.pop('clp')
            elif d.get('er') and 'tk' in d:
                d.pop('tk')
                if k.errors:
                    self.find('C05', 'closed', 'a process that handles errors is closed by an error', ev)
                self.clear_msg(d)
            else:
                self.find('C04', 'spurious', 'the process is closed although no close was taken (or twice)', ev)
        elif ln == 'yield':
            inst('process-yield', where)
        if d.get('res') and ln in ('operator()', 'yield'):
            self.lost(d, ev)
        d['call'] = ('@' if ev.kind == 'enter' else '') + ln + ' ' + where

    def unused(self, d, ev=None):
        """a message was taken from the queue and not given to the process"""
        if not d.get('er'):
            self.find('C07', 'processed', 'a value is taken from the queue and never given to the process', ev)
        elif self.kind.errors:
            self.find('C05', 'dropped', 'an error is received and the process, which handles errors, is not told', ev)
        elif self.kind.closes:
            self.find('C05', 'dropped', 'an error is received and the process, which cannot handle errors, is not closed', ev)
        else:
            self.res.inst('error-without-handler', self.kind.process)
        self.clear_msg(d)

    def clear_msg(self, d):
        for x in list(d):
            if x[0] in 'TA':
                d.pop(x)
        d.pop('er', None)
        d.pop('ha', None)

    def lost(self, d, ev=None):
        r = d.pop('res')
        if r == 'exc':
            self.find('C05', 'lost', 'an exception thrown by the process is not sent to the receivers', ev)
        else:
            self.find('C07', 'lost', 'a result of the process is not sent to the receivers', ev)

    def cell(self, ev, st, d, f):
        k, v = ev.kind, ev.val
        if f == '_process_final':
            if k == 'load':
                d['fin'] = truth(ev.res, st)
            else:
                d['fin'] = truth(v, st)
                if d['fin']:
                    d['fs'] = 1
        elif f == '_process_close_queue':
            if k == 'load':
                d['c'] = truth(ev.res, st)
                return
            t = truth(v, st)
            if t is False and d.get('c') is not False:
                self.res.inst('close-taken', '%s:%s' % (ev.file, ev.line))
                d['ct'] = 1
                if self.kind.closes:
                    d['clp'] = 1
                if d.get('e') is not True:
                    self.find('C04', 'early', 'the close is taken although the queue was not seen to be empty in the same critical section: values that were '
                              'sent before the close are lost', ev)
                if d.get('c') is None:
                    self.find('C04', 'early', 'a close is taken without a test that there is one', ev)
            d['c'] = t
        elif f == '_process_suspend_count' and k == 'store':
            prev = d.get('cnt')
            if v is C(0) or prev is not None and prev.k == 'bin' and v is prev.a[1]:
                d['cnt'] = v
                return
            d['cnt'] = v
            self.res.inst('broadcast', '%s:%s' % (ev.file, ev.line))
            self.returned(d)
            self.res.inst('suspend', str(d.get('mfr')))
            if not one_more(v) and d.get('mfr') is not True and not d.get('n0'):
                self.find('C06', 'suspend', 'a process goes on without waiting for its receivers although their buffers were not seen to have room for more than one value', ev)
            d.pop('mf', None)
            d.pop('mfr', None)
            d.pop('n0', None)
            if 'res' not in d:
                self.find('C07', 'broadcast', 'a result is sent that does not come from a call of the process (or is sent twice)', ev)
            else:
                d['bk'] = d.pop('res')
            for x in ('it', 'ns', 'sl'):
                d.pop(x, None)
            d['it'] = 0
            d['sl'] = 1

    def down(self, ev, d, ln, where):
        q, a = ev.q, ev.args
        mut = ln in ('swap', 'clear', 'exchange', 'reset', 'erase') or ln == 'operator=' and in_field(a[0], '_downstream')
        if not mut and ln == last(scope(q)) and len(a) == 2 and in_field(a[1], '_downstream') and '&&' in ptypes(ev.full) and field(a[1]) is None:
            mut = ln in ('deque', 'optional', 'downstream')
        if mut:
            self.res.inst('downstream-end', where)
            d['de'] = 1
            if not d.get('fin'):
                self.find('C04', 'end', 'the receivers are released although no close was taken', ev)

    # ------------------------------------------------------------
    def done(self, outs):
        for kind, ret, st in outs:
            d = dict(st.tr[0]) if st.tr else {}
            if d.get('inf') or self.kind.void:
                continue
            self.returned(d)
            if kind != 'ret':
                if kind == 'unwind' and (d.get('res') == 'exc' or d.get('rt')):
                    self.find('C05', 'escape', 'an exception thrown by the process leaves the step')
                continue
            self.res.inst('path', '%s %s' % (self.fn.m, sorted(x for x in d.items() if x[0] in ('fin', 'de', 'pe', 'bk', 'sch'))))
            self.settle(d)
            if 'res' in d:
                self.lost(d)
            if 'tk' in d:
                self.unused(d)
            if d.get('clp'):
                self.find('C04', 'missing', 'a close is taken and the process is not told')
            if bool(d.get('de')) != bool(d.get('pe')):
                self.find('C04', 'end', 'at the end of the process %s' % ('its receivers are released and it is not destroyed' if d.get('de') else
                                                                      'it is destroyed and its receivers are not released'))


def in_field_any(t, name):
    """the term is about an object below a field of the process"""
    while True:
        if t.k in ('d', 'ld', 'lk', 'ptrh', 'bool', 'it'):
            t = t.a[0]
        elif t.k in ('fld', 'elt'):
            if field(t) == name:
                return True
            t = t.a[0]
        elif t.k == 'res' and len(t.a) > 1 and hasattr(t.a[1], 'k'):
            t = t.a[1]
        else:
            return False


def sender_index(d):
    """index of the queue that a sender of the process fills"""
    ta = targs(d[d.find(PROC + '_sender_indexed<'):])
    m = re.match(r'(\d+)', ta[4]) if len(ta) > 4 else None
    return int(m.group(1)) if m else None


class Sends:
    """send of a sender: what it queues; the call of a sender: what it passes on"""

    def __init__(self, p, res, fn):
        self.p, self.res, self.fn = p, res, fn
        self.indexed = scope(fn.q).endswith('_sender_indexed')
        self.index = sender_index(fn.d.replace('stlab::v0_0_0::', 'stlab::')) if self.indexed else None

    def find(self, prop, rule, text, ev=None):
        self.res.find(prop + ':' + rule, 'send' if last(self.fn.q) != 'free_buffer' else 'free_buffer', text, '%s:%s' % (ev.file, ev.line) if ev is not None else '%s:%s' % (self.fn.file, self.fn.line),
                      ['entry point ' + common.short_fn(self.fn.d)] + (common.trail(ev) if ev is not None else []))

    def on(self, ev, st):
        d = dict(st.tr[0]) if st.tr else {}
        o = dict(d)
        k, q, a = ev.kind, ev.q or '', ev.args
        where = '%s:%s' % (ev.file, ev.line)
        if k in ('call', 'user') and q.startswith('std::deque::') and in_field(a[0], '_queue'):
            l = last(q)
            if l in ('emplace_back', 'push_back'):
                self.res.inst('append', where)
                d['n'] = min(2, d.get('n', 0) + 1)
                if qindex(a[0]) != self.index:
                    self.find('C07', 'queue', 'a value for queue %s is appended to queue %s' % (self.index, qindex(a[0])), ev)
            elif l in ('emplace_front', 'push_front', 'insert', 'emplace'):
                self.find('C07', 'fifo', 'a value is not added at the end of its queue (%s)' % l, ev)
            elif l in ('pop_front', 'pop_back', 'clear', 'erase', 'assign', 'operator=', 'swap', 'resize'):
                self.find('C07', 'overwrite', 'send removes values from the queue (%s)' % l, ev)
            elif l == 'size' and ev.res is not None:
                d['sz'] = (ev.res, qindex(a[0]), bool(ev.locks))
        elif k == 'vcall' and last(q) == 'send' and not self.indexed:
            self.res.inst('pass-on', where)
            d['n'] = min(2, d.get('n', 0) + 1)
        elif k == 'assume':
            t, v = norm_assume(ev)
            if t.k == 'lk' or t.k == 'cmp' and t.a[0] == 'eq' and t.a[1].k == 'lk' and t.a[2] is NULL:
                d['alive'] = v if t.k == 'lk' else not v
            bf = lambda x: x.k == 'ld' and field(x.a[0]) == '_process_buffer_size'
            if t.k == 'cmp' and t.a[0] == 'eq' and bf(t.a[1]) and t.a[2] is C(0):
                d['z'] = v
            if t.k == 'cmp' and t.a[0] == 'ult' and 'sz' in d:
                if t.a[1] is d['sz'][0] and bf(t.a[2]):
                    d['fits'] = v
                if t.a[2] is d['sz'][0] and bf(t.a[1]):
                    d['fits'] = not v       # size <= buffer size
        if d != o:
            st.tr = (frozenset(d.items()),)

    def done(self, outs):
        ln = last(self.fn.q)
        for kind, ret, st in outs:
            if kind != 'ret':
                continue
            d = dict(st.tr[0]) if st.tr else {}
            n = d.get('n', 0)
            if ln == 'free_buffer':
                if not self.indexed or ret is None:
                    continue
                self.res.inst('free-buffer', self.fn.m)
                if ret.k == 'res' and last(ret.a[0]) == 'max' or ret.k == 'c' and ret.a[0] not in range(0, 2 ** 32):
                    if not d.get('z'):
                        self.find('C06', 'unlimited', 'a process with a buffer size reports unlimited room')
                elif ret.k == 'bin' and ret.a[0] == 'sub':
                    if d.get('z'):
                        self.find('C06', 'unlimited', 'a process without a buffer size reports limited room')
                    if not d.get('fits') and not re.search(r'\bmax\(', show(ret.a[1])):
                        self.find('C06', 'underflow', 'the room in a queue is computed as buffer size minus size without a test that the size is not larger: '
                                  'an overfull queue reports practically unlimited room')
                    if d.get('sz') and (d['sz'][1] != self.index or ret.a[2] is not d['sz'][0]):
                        self.find('C06', 'queue', 'a sender of queue %s reports the room in queue %s' % (self.index, d['sz'][1]))
            elif self.indexed:
                if n != 1:
                    self.find('C07', 'queued', 'a value that is sent is appended to the queue %d times' % n)
            elif d.get('alive') is False:
                if n:
                    self.find('C07', 'queued', 'a value is sent to a process that is gone')
            elif n != 1:
                self.find('C07', 'queued', 'the call of a sender passes its value on %d times' % n)


def sends(ck, p):
    fns = [f for f in p.funcs.values() if scope(f.q) == PROC + '_sender_indexed' and last(f.q) in ('send', 'free_buffer') or
           f.q == 'stlab::sender::operator()']

    def mkon(res, fn):
        res.x['m'] = Sends(p, res, fn)
        return res.x['m'].on

    def after(res, fn, outs):
        res.x.pop('m').done(outs)
    common.scan(ck, p, None, mkon, after=after, fns=fns, throws=lambda ev: False, devirt=lambda e, t: [], cells=cells)


def throws_(ev):
    return ev.kind == 'user' and bool(ev.args) and in_process(ev.args[0]) and last(ev.q) not in ('state', last(scope(ev.q))) \
        and not last(ev.q).startswith('~')


def self_only_(p, ev, targets):
    if last(ev.q) != 'clear_to_send':
        return []
    a = ev.args[0]
    t = a
    while t.k in ('d', 'lk', 'ptrh'):
        t = t.a[0]
    if t.k == 'ld' and (uindex(a) is not None or in_field_any(a, '_downstream')):
        return []
    return [x for x in targets if scope(x.q if hasattr(x, 'q') else p.funcs[x].q) == PROC]


def analyse(ck, p, prop):
    def mkon(res, fn):
        res.x['m'] = Machine(p, res, fn)
        return res.x['m'].on

    def after(res, fn, outs):
        m = res.x.pop('m')
        m.done(outs)
        res.inst('step', fn.m)
    fns = process.closures(p)
    for n in (1, 2):
        common.scan(ck, p, None, mkon, after=after, fns=[f for f in fns if (Kind(p, f).n > 1) == (n > 1)], throws=throws_,
                    devirt=lambda e, t: self_only_(p, e, t), cells=cells, count=n, deep=True)
    sends(ck, p)
    for k in list(ck.findings):
        if prop and not k[0].startswith(prop + ':'):
            del ck.findings[k]
