"""E02: within one queue of an executor tasks are taken by priority, and in submission order within one priority."""
import re

import common
from absint import mk, root, show, under
from futures import sub
from names import last, scope
from taskflow import Flow, elem_type, queues, reaching

HEAP = re.compile(r'^std::(push|pop|make|sort)_heap$')


def tmpl_args(full, fname):
    i = full.find(fname + '<')
    if i < 0:
        return []
    i += len(fname) + 1
    out, n, cur = [], 0, ''
    for ch in full[i:]:
        if ch == '<':
            n += 1
        elif ch == '>':
            if n == 0:
                break
            n -= 1
        elif ch == ',' and n == 0:
            out.append(cur.strip())
            cur = ''
            continue
        cur += ch
    return out + [cur.strip()]


def comparators(p):
    """element type -> {comparator type: [functions using it]} of the heap algorithms"""
    out = {}
    for m, cs in p.callers.items():
        d = p.dem(m)
        h = re.match(r'void std::(push|pop)_heap<', d)
        if not h:
            continue
        a = tmpl_args(d, h.group(1) + '_heap')
        if not a:
            continue
        it = re.sub(r'^__gnu_cxx::__normal_iterator<', '', a[0])
        el = re.sub(r'\s*\*.*', '', split_first(it))
        out.setdefault(el, {}).setdefault(a[1] if len(a) > 1 else 'std::less', set()).update((c, h.group(1)) for c in cs if c in p.funcs)
    return out


def split_first(s):
    n = 0
    for i, ch in enumerate(s):
        n += {'<': 1, '>': -1}.get(ch, 0)
        if ch == ',' and n == 0:
            return s[:i]
    return s


REL = {'lt': ('<', 1), 'gt': ('>', 1), 'le': ('<=', 1), 'ge': ('>=', 1)}


def direction(t, neg=False):
    """('>' | '<' | '>=' | '<=', left, right) of the value a comparator returns"""
    while t.k in ('not', 'bool'):
        if t.k == 'not':
            neg = not neg
        t = t.a[0]
    if t.k == 'res' and last(t.a[0]) in ('operator<', 'operator>', 'operator<=', 'operator>='):
        op, ar = last(t.a[0])[8:], t.a[1:]
        if len(ar) == 1 or ar[0].k == 'res' and last(ar[0].a[0]) == 'operator<=>':
            c = ar[0]
            if c.k != 'res' or last(c.a[0]) != 'operator<=>' or len(c.a) < 3:
                return None
            l, r = c.a[1], c.a[2]
        else:
            l, r = ar[0], ar[1]
    elif t.k == 'cmp' and t.a[0][-2:] in REL:
        op, l, r = REL[t.a[0][-2:]][0], t.a[1], t.a[2]
    else:
        return None
    if neg:
        op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}[op]
    return op, strip(l), strip(r)


def strip(t):
    while t.k == 'ld':
        t = t.a[0]
    return t


def arg_and_path(t):
    path = []
    while t.k == 'fld':
        path.append(t.a[-1])
        t = t.a[0]
    return t, tuple(reversed(path))


def run(ck):
    p = common.load(ck, common.ALL_UNITS)
    cmps = comparators(p)
    types, pops = queues(p)
    cmps = {e: c for e, c in cmps.items() if e in types}
    sense = {}
    for el, cs in sorted(cmps.items()):
        names = sorted(cs)
        key = 'ordering of the queue of %s' % brief(el)
        if len(names) > 1:
            ck.find('mixed-order', key, 'the heap of one queue is maintained with different orderings: %s' % ', '.join(brief(n) for n in names), '')
        for n in names:
            ck.inst('heap', el)
            for s in order(ck, p, n, key):
                ck.inst('comparator', n)
                sense.setdefault(el, []).append(s)

    heaps = set(cmps)

    # --- maintenance of the heap
    users = {c for cs in cmps.values() for fs in cs.values() for c, _ in fs}
    pushers = {c for m, cs in p.callers.items() for c in cs
               if c in p.funcs and is_push(p.dem(m)) and elem_type(p.dem(m)) in heaps}
    poppers = {c for m, cs in p.callers.items() for c in cs if c in p.funcs and re.search(r'::(pop_back|pop_front|erase)\(', p.dem(m))
               and elem_type(p.dem(m)) in heaps}
    rch = reaching(p, users | pushers | poppers)
    fns = [f for f in common.roots(p) if f.m in rch]

    def mkon(res, fn):
        def bad(kind, text, ev):
            pass

        def where(ev):
            for _, f, _ in reversed(ev.stack):
                if f.q.startswith('stlab::') and not f.q.startswith('stlab::task_'):
                    return re.sub(r'<.*?>', '', f.q)
            return fn.q

        def find(kind, text, ev):
            res.find(kind, where(ev), text, '%s:%s' % (ev.file, ev.line), common.trail(ev))

        def note(k, ev, c=None, *a):
            if k == 'take':
                pos, popped = a
                if heap_of(c):
                    res.inst('take', '%s:%s' % (ev.file, ev.line))
                    first = pos in ('front', 'begin') and not popped
                    lastp = pos in ('back', 'rbegin') and popped
                    if not (first or lastp):
                        find('not-the-first', 'the task that is taken out is not the one at the top of the heap', ev)
            elif k == 'remove':
                pos, popped, ln = a
                if heap_of(c):
                    res.inst('remove', '%s:%s' % (ev.file, ev.line))
                    if ln != 'pop_back' or not popped:
                        find('wrong-removal', 'the element that is removed is not the one that was moved to the end of the heap', ev)
            elif k == 'unordered':
                if heap_of(c):
                    find('unordered', 'an element is added and the queue is released without restoring the heap', ev)
            elif k == 'push_heap':
                res.inst('push_heap', '%s:%s' % (ev.file, ev.line))

        fl = Flow(p, bad, types, note=note)
        tys = {}

        def heap_of(c):
            return tys.get(c) in heaps

        def on(ev, st):
            if ev.q and ev.args and scope(ev.q) in ('std::vector', 'std::deque'):
                from taskflow import cont_of
                c = cont_of(ev.args[0], st)
                if c is not None and c not in tys:
                    tys[c] = elem_type(ev.full)
                if c is not None and heap_of(c) and last(ev.q) in ('emplace_back', 'push_back', 'insert', 'emplace'):
                    keyed(ev, st, c)
            if ev.kind == 'unlock' and st.tr:
                d = dict(st.tr[0])
                for (kk, *rest), v in d.items():
                    if kk == 'cnt' and not v:
                        find('count', 'two elements can get the same sequence number: the counter is not advanced while the queue is held', ev)
                d = {k2: v for k2, v in d.items() if k2[0] != 'cnt'}
                fl.put(st, d)
            if ev.kind == 'store':
                a = ev.args[0]
                for t in ([ev.val] if ev.val is not None else []):
                    if t.k == 'bin' and t.a[0] == 'add' and strip(t.a[1]) is a and t.a[2].k == 'c' and 0 < t.a[2].a[0] < 1 << 20:
                        d = fl.get(st)
                        d[('cnt', a)] = 1
                        fl.put(st, d)
                        break
            fl.on(ev, st)

        def keyed(ev, st, c):
            if 'priority' not in tys[c] and 'element_t' not in tys[c]:
                return
            cand = []
            for a in ev.args[1:]:
                for k2, v in st.env.items():
                    if (k2 is a or k2.k == 'fld' and under(k2, a)) and v.k in ('bin', 'ld', 'c', 'ph', 'x', 'arg'):
                        cand.append(v)
            shaped = [key_shape(v) for v in cand if v.k != 'ld']
            shaped = [x for x in shaped if x is not None]
            res.inst('key', '%s:%s' % (ev.file, ev.line))
            if not shaped:
                find('key', 'the key of a queued task (%s) is not the priority followed by a sequence number' %
                     ', '.join(show(v)[:60] for v in cand[-1:]), ev)
                return
            prio, bits, cnt = shaped[0]
            d = fl.get(st)
            d.setdefault(('cnt', cnt), 0)
            fl.put(st, d)
            if not ev.locks:
                find('key', 'the sequence number is drawn without holding the queue', ev)
        return on

    res = common.scan(ck, p, None, mkon, fns=fns, throws=lambda e: False)
    levels(ck, p)
    for k, n in (('heap', 2), ('comparator', 2), ('take', 2), ('remove', 2), ('push_heap', 2), ('key', 1), ('level', 3)):
        ck.require(k, n)
    return ck.finish('Comparators evaluated as terms (strict, on the key, smallest first); typestate of the heap over every path of every '
                     'submission and worker (push then push_heap, top taken, pop_heap then pop_back); shape of the key as a term; constants of '
                     'the executors ordered by that key.')


def is_push(d):
    return bool(re.search(r'std::(vector|deque)<.*::(emplace_back|push_back|insert|emplace)[<(]', d))


def key_shape(v):
    """(priority, shift, counter) of  (priority << shift) | counter"""
    if v.k == 'bin' and v.a[0] in ('or', 'add', 'xor'):
        for x, y in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            n = None
            if x.k == 'bin' and x.a[0] == 'shl' and x.a[2].k == 'c':
                n, pr = x.a[2].a[0], x.a[1]
            elif x.k == 'bin' and x.a[0] == 'mul' and x.a[2].k == 'c' and x.a[2].a[0] & (x.a[2].a[0] - 1) == 0:
                n, pr = x.a[2].a[0].bit_length() - 1, x.a[1]
            elif x.k == 'c':
                pr = x
                n = 62
                if x.a[0] % (1 << 62):
                    continue
                pr = mk('c', x.a[0] >> 62)
            if n is not None and 32 <= n <= 62 and y.k in ('ld', 'fld', 'bin'):
                return pr, n, strip(y)
    if v.k == 'ld':
        return mk('c', 0), 62, strip(v)
    return None


def order(ck, p, name, key):
    m = name + '::operator()'
    fs = [f for f in p.funcs.values() if f.q == re.sub(r'<.*', '', name) + '::operator()' or f.d.startswith(m)]
    if not fs and name.startswith('std::'):
        op = {'std::less': '<', 'std::greater': '>'}.get(re.sub(r'<.*', '', name))
        if op:
            if op != '>':
                ck.find('order', key, 'the heap yields the largest key first', '')
            yield op
            return
    if not fs:
        ck.broken('no body of the comparator %s' % name)
    from absint import Interp
    for f in fs:
        loc = '%s:%s' % (f.file, f.line)
        for k, r, st in Interp(p, on=lambda e, s: None).run(f):
            if k != 'ret':
                continue
            d = direction(r)
            if d is None:
                ck.find('order', key, 'the ordering does not compare the keys of the two elements (it returns %s)' % show(r)[:100], loc)
                continue
            op, l, r2 = d
            (la, lp), (ra, rp) = arg_and_path(l), arg_and_path(r2)
            if lp != rp or not lp or la is ra or root(la).k != 'arg' or root(ra).k != 'arg':
                ck.find('order', key, 'the ordering does not compare the same key of the two elements', loc)
                continue
            if root(la).a[0] > root(ra).a[0]:
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
            if op != '>':
                ck.find('order', key, 'the ordering is "first %s second": %s' % (
                    op, 'not a strict ordering' if '=' in op else 'the heap yields the largest key first'), loc)
            yield op


def levels(ck, p):
    """the constants the executors submit with: high before medium before low"""
    got = {}
    from absint import Interp
    names = ('high', 'medium', 'low')
    for f in p.funcs.values():
        lv = re.search(r'w::tag_(high|medium|low)\b', f.d)
        if f.q != 'stlab::detail::executor_type::operator()' or not lv:
            continue
        seen = got.setdefault(lv.group(1), set())

        def on(ev, st):
            if ev.q and ev.args and scope(ev.q) in ('std::vector', 'std::deque') and last(ev.q) in ('emplace_back', 'push_back'):
                for a in ev.args[1:]:
                    v = st.env.get(a)
                    s = key_shape(v) if v is not None and v.k in ('bin', 'ld') else None
                    if s and s[0].k == 'c':
                        seen.add(s[0].a[0])
        Interp(p, on=on, throws=lambda e: False).run(f)
        if seen:
            ck.inst('level', lv.group(1))
    keys = []
    for n in names:
        if not got.get(n):
            return
        if len(got[n]) != 1:
            return ck.find('level', 'priority %s' % n, 'tasks of the %s priority are queued with the priorities %s' % (n, sorted(got[n])), '')
        keys.append(next(iter(got[n])))
    if not keys[0] < keys[1] < keys[2]:
        ck.find('level', 'priorities', 'the priorities of the high, default and low executors (%s, %s, %s) are not in this order' % tuple(keys), '')


def brief(s):
    s = re.sub(r'std::chrono::time_point<.*', 'time point', s)
    return re.sub(r'stlab::detail::', '', s)[:60]
