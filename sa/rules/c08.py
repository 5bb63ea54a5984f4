"""C08: a merge is idle exactly when its strategy has nothing to take, and a round robin takes from its inputs in turn."""
import common
from absint import Interp
from names import last, scope

N = 3


def field(t):
    return t.a[2] if t.k == 'fld' else None


def queue(t):
    """index of the queue a term is in"""
    while t.k in ('fld', 'elt', 'ld'):
        if t.k == 'fld' and t.a[1] == 'tuple' and t.a[2].isdigit():
            return int(t.a[2])
        t = t.a[0]
    return None


def is_turn(t):
    return t.k == 'ld' and field(t.a[0]) == '_index'


def value(t, k):
    """what a term is when the index is k"""
    if t.k == 'c':
        return t.a[0]
    if is_turn(t):
        return k
    if t.k == 'bin':
        a, b = value(t.a[1], k), value(t.a[2], k)
        if a is None or b is None:
            return None
        return {'add': lambda: a + b, 'sub': lambda: a - b, 'urem': lambda: a % b if b else None, 'mul': lambda: a * b}.get(t.a[0], lambda: None)()
    if t.k == 'cmp':
        a, b = value(t.a[1], k), value(t.a[2], k)
        if a is None or b is None:
            return None
        return {'eq': a == b, 'ult': a < b, 'slt': a < b}.get(t.a[0])
    if t.k in ('not', 'bool'):
        a = value(t.a[0], k)
        return None if a is None else (not a if t.k == 'not' else a)
    return None


def norm(t, v):
    while t.k in ('not', 'bool'):
        v ^= t.k == 'not'
        t = t.a[0]
    return t, v


class Path:
    def __init__(self):
        self.n = 0

    def __call__(self, ev, st):
        d = dict(st.tr[0]) if st.tr and isinstance(st.tr[0], frozenset) else {}
        k, a = ev.kind, ev.args
        if k == 'assume':
            self.assume(d, a[0], ev.val.a[0] == 1)
        elif k == 'leave' and 'bool' in ev.full[:5] and ev.res is not None:
            pass
        elif k == 'load' and field(a[0]) == '_index' and 'w' not in d and ev.res is not None and ev.res.k == 'c':
            d['i'] = d.get('i', ev.res.a[0])
        elif k == 'store' and field(a[0]) == '_index':
            d['w'] = ev.val
        elif k in ('call', 'user') and last(ev.q) in ('pop_front', 'pop_back', 'erase', 'clear') and ev.q.startswith('std::deque::'):
            d['p'] = d.get('p', ()) + (queue(a[0]),)
        st.tr = (frozenset(d.items()),)

    def assume(self, d, t, v):
        t, v = norm(t, v)
        if t.k == 'res' and last(t.a[0]) == 'empty' and queue(t.a[1]) is not None:
            d.setdefault('e', ())
            d['e'] = tuple(sorted(set(d['e'] + ((queue(t.a[1]), v),))))
        elif t.k == 'cmp' and t.a[0] == 'eq' and t.a[1].k == 'res' and last(t.a[1].a[0]) == 'size' and t.a[2].k == 'c' and t.a[2].a[0] == 0 \
                and queue(t.a[1].a[1]) is not None:
            d.setdefault('e', ())
            d['e'] = tuple(sorted(set(d['e'] + ((queue(t.a[1].a[1]), v),))))
        else:
            d['a'] = (d.get('a', ()) + ((t, v),))[-12:]


def kind(f):
    for k in ('unordered', 'round_robin', 'zip_with'):
        if k + '_t>' in f.d:
            return k
    return None


def paths(p, f):
    on = Path()
    it = Interp(p, on=on, deep=True, count=N + 1, cells=lambda a: ('', 0) if field(a) in ('_index', '_popped_index') else None)
    for k, r, st in it.run(f):
        if k == 'ret':
            yield r, (dict(st.tr[0]) if st.tr and isinstance(st.tr[0], frozenset) else {}), it.steps


def possible(d, k):
    """a path that can be taken when the index is k"""
    if d.get('i', k) != k:
        return False
    for t, v in d.get('a', ()):
        x = value(t, k)
        if x is not None and bool(x) != v:
            return False
    return True


def run(ck):
    p = common.load(ck, ['w_merge.cpp'])
    n = 0
    for f in p.funcs.values():
        if f.q == 'w::merged::merge_make' and kind(f) == 'round_robin':
            start(ck, p, f)
        if not scope(f.q).endswith('w::merged') or last(f.q) not in ('merge_empty', 'merge_pop'):
            continue
        s = kind(f)
        where = 'strategy %s' % s
        for r, d, st in paths(p, f):
            n += 1
            if last(f.q) == 'merge_empty':
                ck.inst('idle', f.d)
                full = dict(d.get('e', ()))
                r, neg = norm(r, False)
                outs = []
                if r.k == 'c':
                    outs.append(((r.a[0] != 0) ^ neg, full))
                elif r.k == 'res' and last(r.a[0]) == 'empty' and queue(r.a[1]) is not None:
                    for v in (False, True):
                        if full.get(queue(r.a[1]), v) == v:
                            outs.append((v ^ neg, dict(full, **{})))
                            outs[-1][1][queue(r.a[1])] = v
                else:
                    continue
                for idle, e in outs:
                    for k in range(N) if s == 'round_robin' else (0,):
                        if not possible(d, k):
                            continue
                        idle_if(ck, s, idle, e, k, where)
            elif s == 'round_robin':
                for k in range(N):
                    if not possible(d, k):
                        continue
                    ck.inst('turn', '%s %d' % (f.d, k))
                    if d.get('p') is not None and d['p'] != (k,):
                        ck.find('turn', 'pop', 'a round robin whose turn is at input %d of %d removes a value from the queues %s' % (k, N, list(d['p'])), where)
                    w = value(d['w'], k) if 'w' in d else k
                    if w is not None and w != (k + 1) % N:
                        ck.find('turn', 'next', 'after a value of input %d of %d, a round robin goes on with input %s: inputs are taken out of turn, or never' % (k, N, w), where)
    ck.require('idle', 3)
    ck.require('turn', 3)
    ck.cov['paths'] = n
    return ck.finish('Path enumeration of the emptiness test and of the removal of every merge strategy, instantiated with %d inputs: the test is compared '
                     'with what the path has seen of each queue; the turn of a round robin after a removal is computed for each turn before.' % N)


def start(ck, p, f):
    seen = {}

    def on(ev, st):
        if ev.kind == 'store' and field(ev.args[0]) == '_index':
            seen['i'] = ev.val
        elif ev.kind == 'store' and ev.args[0].k == 'arg' and ev.val.k == 'c':
            seen['i'] = ev.val
    Interp(p, on=on, deep=True).run(f)
    ck.inst('turn', 'start')
    if 'i' not in seen:
        ck.find('turn', 'start', 'the turn of a new round robin is not initialised', 'strategy round_robin')
    elif seen['i'].k == 'c' and seen['i'].a[0] != 0:
        ck.find('turn', 'start', 'a new round robin starts with input %d' % seen['i'].a[0], 'strategy round_robin')


def idle_if(ck, s, idle, e, k, where):
    if s == 'zip_with':
        if idle and True not in e.values():
            ck.find('idle', 'missed', 'a zip is idle although all of its queues hold a value: they stay there', where)
        if not idle and any(e.get(i) is not False for i in range(N)):
            ck.find('idle', 'early', 'a zip goes on without having seen a value in every one of its queues', where)
    elif s == 'unordered':
        if idle and any(e.get(i) is not True for i in range(N)):
            ck.find('idle', 'missed', 'an unordered merge is idle although not every one of its queues was seen to be empty: values stay there', where)
        if not idle and False not in e.values():
            ck.find('idle', 'early', 'an unordered merge goes on without having seen a value in one of its queues', where)
    elif s == 'round_robin':
        if idle and e.get(k) is not True:
            ck.find('idle', 'missed', 'a round robin whose turn is at input %d is idle although that queue was not seen to be empty' % k, where)
        if not idle and e.get(k) is not False:
            ck.find('idle', 'early', 'a round robin whose turn is at input %d goes on without having seen a value in that queue' % k, where)
