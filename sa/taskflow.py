"""Linear tracking of task objects: where a task that was taken out of a queue is, and whether it has been invoked.

The machine state travels in st.tr as one frozenset of ((kind, address), value):
  ('t', a)  'F' holds a task not yet invoked, 'R' holds one already invoked
  ('c', c)  container in the middle of an operation: (taken?, position, popped?, pushed?)
  ('a', c)  local container that holds everything taken out of a shared one
  ('n',)    number of tasks handed over so far (0, 1, 2)
"""
import re

from absint import NULL, root, under
from futures import sub
from names import last, qname, scope

TASK = 'stlab::task_'


def cont_of(t, st):
    for _ in range(6):
        if t.k in ('fld', 'al', 'arg', 'elt', 'd', 'g'):
            return t
        if t.k == 'it':
            t = t.a[0]
        elif t.k == 'res' and len(t.a) > 1:
            t = t.a[1]
        elif t.k in ('bin', 'cmp'):
            t = t.a[1]
        elif t.k == 'ld':
            t = t.a[0]
        else:
            return None
    return None


def elt_of(a):
    """the container whose element (or a part of it) an address is"""
    while a.k in ('fld', 'elt'):
        if a.k == 'elt':
            return a.a[0]
        a = a.a[0]
    return None


POPS = ('pop_back', 'pop_front', 'erase', 'pop')


def elem_type(full):
    m = re.search(r'std::(?:vector|deque|list|queue)<', full)
    h = full[m.end():] if m else ''
    n, i = 1, 0
    while i < len(h) and n:
        n += {'<': 1, '>': -1}.get(h[i], 0)
        if h[i] == ',' and n == 1:
            break
        i += 1
    return h[:i]


def queues(p):
    """element types of the containers of tasks (or handlers) from which single elements are removed, and the functions doing so"""
    ts, fs = set(), set()
    for m, cs in p.callers.items():
        d = p.dem(m)
        if not d.startswith('std::') and ' std::' not in d:
            continue
        q = p.qn(m) if hasattr(p, 'qn') else qname(d)
        if scope(q) not in ('std::vector', 'std::deque', 'std::list', 'std::queue') or last(q) not in POPS:
            continue
        t = elem_type(d)
        h = t.startswith('stlab::task_<') or t.startswith('std::pair<') and 'stlab::task_<' in t or t == 'void (*)()'
        if not h:
            c = re.sub(r'<.*', '', t)
            for rec in list(p.by_tname.get(c + '::', [])) + list(p.by_tname.get(c, [])):
                if any('task' in str(f['type'] if isinstance(f, dict) else f[1]) for f in rec.get('f', [])):
                    h = True
        if h:
            ts.add(t)
            fs |= {c for c in cs if c in p.funcs}
    return ts, fs


def reaching(p, fs):
    """functions that (transitively) call one of these"""
    out, todo = set(fs), list(fs)
    while todo:
        for c in p.callers.get(todo.pop(), {}):
            if c in p.funcs and c not in out:
                out.add(c)
                todo.append(c)
    return out


class Flow:
    def __init__(self, p, bad, types, seed=None, note=None):
        self.p = p
        self.bad = bad              # bad(kind, text, ev)
        self.types = types
        self.seed = seed or {}
        self.note = note or (lambda *a: None)
        self.tests = {}

    def holds_tasks(self, full):
        r = self.tests.get(full)
        if r is None:
            r = self.tests[full] = elem_type(full) in self.types
        return r

    def get(self, st):
        return dict(st.tr[0]) if st.tr else dict(self.seed)

    def put(self, st, d):
        st.tr = (frozenset(d.items()),)

    def local(self, a):
        return root(a).k == 'al'

    def on(self, ev, st):
        k, q = ev.kind, ev.q
        if k == 'assume':
            if not st.tr:
                return
            t, v = ev.args[0], bool(ev.val.a[0])
            while t.k == 'not':
                t, v = t.a[0], not v
            if t.k != 'bool':
                return
            t = t.a[0]
            d = self.get(st)
            ch = False
            for (kk, *rest), val in list(d.items()):
                if kk == 't' and not v:
                    x = st.env.get(rest[0])
                    if x is t or t.k == 'ld' and t.a[0] is rest[0]:
                        d.pop((kk, rest[0]))
                        ch = True
                if kk == 'a' and v and t.k == 'res' and len(t.a) > 1 and last(t.a[0]) == 'empty' and t.a[1] is rest[0]:
                    d.pop((kk, rest[0]))
                    ch = True
            if ch:
                self.put(st, d)
            return
        if k == 'unlock':
            d = self.get(st)
            for (kk, *rest), val in list(d.items()):
                if kk == 'c' and not self.local(rest[0]):
                    if val[0]:
                        self.bad('not-removed', 'a task taken out of a queue stays in the queue: it is run again', ev)
                    if val[3]:
                        self.note('unordered', ev, rest[0])
                    d.pop((kk, rest[0]))
                if kk == 'm':
                    d.pop((kk, rest[0]))
            self.put(st, d)
            return
        if not q or not ev.args:
            return
        sc, ln = scope(q), last(q)
        if ln == 'operator()' and sc != TASK and k in ('user', 'enter', 'call'):
            d = self.get(st)
            if ('t', ev.args[0]) in d:
                self.ran(d, ev.args[0], ev)
                return self.put(st, d)
        if k == 'user' and sc != TASK:
            d = self.get(st)
            if len(ev.args) == 2 and ('t', ev.args[1]) in d and (ln == last(sc) or ln == 'operator='):
                if '&&' in ev.full:
                    d[('t', ev.args[0])] = d.pop(('t', ev.args[1]))
                else:
                    d[('t', ev.args[0])] = 'K'
                return self.put(st, d)
        if sc == TASK:
            return self.task(ev, st, ln)
        if k == 'dtor' or ln.startswith('~'):
            return self.gone(ev, st, ev.args[0])
        if sc in ('std::vector', 'std::deque', 'std::list', 'std::queue') or ln in ('pop_heap', 'push_heap') or q == 'std::swap':
            return self.container(ev, st, sc, ln)
        if sc in ('std::pair', 'std::tuple', 'std::optional'):
            d = self.get(st)
            if not d:
                return
            if ev.extra and ln == 'operator=' and isinstance(ev.extra, tuple):
                for dst, src in ev.extra:
                    if (('t', src)) in d or ('t', dst) in d:
                        self.move(d, dst, src, ev, True)
                self.put(st, d)
                return
            if ln == last(sc) and len(ev.args) > 1:
                names = ('first', 'second') if sc == 'std::pair' else tuple('0123456789')
                if len(ev.args) == 2:
                    src = ev.args[1]
                    c = elt_of(src)
                    if c is not None and ('c', c) in d and '&&' in ev.full:
                        self.take(d, c, ev)
                        d[('t', ev.args[0])] = 'F'
                    for (kk, *rest), val in list(d.items()):
                        if kk == 't' and rest[0] is not src and under(rest[0], src):
                            from absint import rebase
                            d.pop((kk, rest[0]))
                            d[('t', rebase(rest[0], src, ev.args[0]))] = val
                else:
                    from absint import mk
                    for n, a in zip(names, ev.args[1:]):
                        if ('t', a) in d:
                            d[('t', mk('fld', ev.args[0], sc if sc == 'std::pair' else 'tuple', n))] = d.pop(('t', a))
                self.put(st, d)

    # ------------------------------------------------------------ tasks
    def move(self, d, dst, src, ev, assign):
        if assign and d.get(('t', dst)) == 'F' and dst is not src:
            self.bad('dropped', 'a task that was taken out of a queue is overwritten before it is run', ev)
        c = elt_of(src)
        if c is not None and ('c', c) in d:
            if elt_of(dst) is None:
                self.take(d, c, ev)
                d[('t', dst)] = 'F'
            return
        if ('t', src) in d:
            d[('t', dst)] = d.pop(('t', src))
        else:
            d.pop(('t', dst), None)

    def task(self, ev, st, ln):
        a = ev.args[0]
        d = self.get(st)
        if ev.kind == 'dtor' or ln.startswith('~'):
            return self.gone(ev, st, a)
        if ln == 'task_' or ln == 'operator=':
            par = ev.full[ev.full.rfind('('):]
            if len(ev.args) > 1 and par.startswith('(stlab::task_<'):
                self.move(d, a, ev.args[1], ev, ln == 'operator=')
            else:
                if ln == 'operator=' and d.get(('t', a)) == 'F':
                    self.bad('dropped', 'a task that was taken out of a queue is overwritten before it is run', ev)
                d.pop(('t', a), None)
                if len(ev.args) > 1:
                    for (kk, *rest), val in list(d.items()):
                        if kk == 't' and (rest[0] is ev.args[1] or under(rest[0], ev.args[1])):
                            d.pop((kk, rest[0]))
                            d[('t', a)] = val
        elif ln == 'swap' and len(ev.args) > 1:
            x, y = d.pop(('t', a), None), d.pop(('t', ev.args[1]), None)
            if x:
                d[('t', ev.args[1])] = x
            if y:
                d[('t', a)] = y
        elif ln == 'operator()':
            c = elt_of(a)
            if ('t', a) in d:
                self.ran(d, a, ev)
            elif c is not None and ('c', c) in d:
                self.take(d, c, ev)
        else:
            return
        self.put(st, d)

    def ran(self, d, a, ev):
        x = d[('t', a)]
        self.note('run', ev)
        if x == 'R':
            self.bad('run-twice', 'a task is run again', ev)
        d[('t', a)] = 'R'
        if self.seed:
            d[('n',)] = min(2, d.get(('n',), 0) + 1)

    def gone(self, ev, st, a):
        if not st.tr:
            return
        d = self.get(st)
        ch = False
        for (kk, *rest), val in list(d.items()):
            if kk in ('t', 'a', 'c') and (rest[0] is a or under(rest[0], a)):
                if kk == 't' and val == 'F':
                    self.bad('dropped', 'a task that was taken out of a queue is destroyed without being run', ev)
                if kk == 'a':
                    self.bad('dropped', 'tasks that were taken out of a queue are destroyed without being run', ev)
                d.pop((kk, rest[0]))
                ch = True
        if ch:
            self.put(st, d)

    # ------------------------------------------------------------ containers
    def take(self, d, c, ev):
        v = d.get(('c', c), (0, '', 0, 0))
        if v[0]:
            self.bad('taken-twice', 'the same element of a queue is taken twice', ev)
        self.note('take', ev, c, v[1], v[2])
        d[('c', c)] = (1, v[1], v[2], v[3])

    def container(self, ev, st, sc, ln):
        c = cont_of(ev.args[0], st)
        if c is None:
            return
        d = self.get(st)
        if ln in ('pop_heap', 'push_heap'):
            v = d.get(('c', c), (0, '', 0, 0))
            self.note(ln, ev, c)
            d[('c', c)] = (v[0], v[1], 1, v[3]) if ln == 'pop_heap' else (v[0], v[1], v[2], 0)
            return self.put(st, self.norm(d, c))
        if ev.q == 'std::swap' or ln == 'swap':
            if len(ev.args) < 2 or not self.holds_tasks(ev.full):
                return
            a, b = c, cont_of(ev.args[1], st)
            return self.moved(ev, st, d, a, b, True)
        if not self.holds_tasks(ev.full):
            return
        v = d.get(('c', c), (0, '', 0, 0))
        if ln in ('front', 'back', 'operator[]', 'at', 'begin', 'rbegin'):
            d[('c', c)] = (v[0], ln if not v[0] else v[1], v[2], v[3])
            return self.put(st, d)
        if ln in ('pop_back', 'pop_front', 'erase'):
            if not v[0]:
                self.bad('dropped', 'a task is removed from a queue without being taken', ev)
            self.note('remove', ev, c, v[1], v[2], ln)
            d[('c', c)] = (0, '', 0, v[3])
            return self.put(st, self.norm(d, c))
        if ln in ('emplace_back', 'push_back', 'emplace_front', 'push_front', 'emplace', 'insert'):
            src = [a for a in ev.args[1:] if ('t', a) in d]
            if self.seed and not src:
                self.bad('wrong-task', 'what is put into a queue is not the task that was handed over, or it was moved away before', ev)
            for a in src:
                d.pop(('t', a))
            self.note('push', ev, c, ln)
            n = d.get(('n',), 0)
            d[('n',)] = min(2, n + 1)
            d[('c', c)] = (v[0], v[1], v[2], 'h')
            return self.put(st, d)
        if ln in ('clear', 'resize', 'assign'):
            if d.pop(('m', c), None):
                pass
            elif d.pop(('a', c), None):
                self.bad('dropped', 'tasks that were taken out of a queue are discarded', ev)
            elif not self.local(c):
                self.bad('dropped', 'the tasks of a queue are discarded', ev)
            return self.put(st, d)
        if ln in (last(sc), 'operator=') and len(ev.args) > 1:
            return self.moved(ev, st, d, c, cont_of(ev.args[1], st), False)

    def moved(self, ev, st, d, a, b, swap):
        if a is None or b is None:
            return
        fa, fb = d.pop(('a', a), None), d.pop(('a', b), None)
        if fa and not swap and last(ev.q) == 'operator=':
            self.bad('dropped', 'tasks that were taken out of a queue are overwritten', ev)
        if self.local(a) and not self.local(b):
            fb = fb or 1
        elif self.local(b) and not self.local(a) and swap:
            fa = fa or 1
        if fb and self.local(a):
            d[('a', a)] = 1
            if not swap:
                d[('m', b)] = 1
            self.note('take-all', ev, b, a)
        if fa and swap and self.local(b):
            d[('a', b)] = 1
            self.note('take-all', ev, a, b)
        self.put(st, d)

    def norm(self, d, c):
        if d.get(('c', c)) == (0, '', 0, 0):
            d.pop(('c', c))
        return d
