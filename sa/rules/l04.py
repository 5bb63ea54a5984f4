"""L04: locks are acquired in one order, never twice by one thread, and no thread sleeps with a lock held."""
import re

import common
from absint import show
from locks import lockid
from names import last, scope

BLOCK = re.compile(r'^std::(thread|jthread)::join$|^std::this_thread::sleep_(for|until)$|^std::(future|shared_future)::(get|wait)$|'
                   r'^std::(latch|barrier|counting_semaphore)::(wait|acquire|arrive_and_wait)$')


def run(ck):
    p = common.load(ck, common.ALL_UNITS)

    def mkon(res, fn):
        edges = res.x.setdefault('edges', {})

        def ep(ev):
            return ['entry point ' + common.short_fn(fn.d)] + common.trail(ev)

        def on(ev, st):
            if ev.kind == 'lock':
                mx = ev.args[0]
                res.inst('lock-acquisition', '%s in %s' % (lockid(mx), ev.fn.q))
                if ev.q == 'try':
                    return
                for h in ev.locks:
                    if h is mx:
                        if 'recursive' in ev.full:
                            continue
                        res.find('relock', '%s in %s' % (lockid(mx), ev.fn.q),
                                 'the mutex %s is locked by a thread that already holds it' % show(mx), ev.where(), ep(ev))
                    else:
                        k = (lockid(h), lockid(mx))
                        edges.setdefault(k, (show(h), show(mx), ev.fn.q, ev.where(), tuple(ep(ev))))
            elif ev.kind == 'cvwait':
                res.inst('blocking-site', 'condition wait in %s' % ev.fn.q)
                own = ev.val.c if ev.val is not None else None
                for h in ev.locks:
                    if h is not own:
                        res.find('sleep-with-lock', '%s across a wait in %s' % (lockid(h), ev.fn.q),
                                 '%s stays locked while the thread waits for a condition' % show(h), ev.where(), ep(ev))
            elif ev.kind == 'call' and BLOCK.match(ev.q):
                res.inst('blocking-site', '%s in %s' % (ev.q, ev.fn.q))
                for h in ev.locks:
                    res.find('sleep-with-lock', '%s across %s in %s' % (lockid(h), ev.q, ev.fn.q),
                             '%s stays locked while the thread blocks' % show(h), ev.where(), ep(ev))
            elif ev.kind == 'vcall' and ev.locks:
                res.count('virtual_calls_under_lock')
        return on

    def devirt(ev, targets):
        return targets if ev.locks else []
    out = common.scan(ck, p, None, mkon, devirt=devirt)
    edges = {}
    for r in out:
        for k, v in r.x['edges'].items():
            edges.setdefault(k, v)
    ck.cov['lock_order'] = sorted('%s -> %s (in %s)' % (a, b, v[2]) for (a, b), v in edges.items())
    # cycles
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)

    def path(a, b):
        seen, todo = {a: None}, [a]
        while todo:
            x = todo.pop(0)
            for y in sorted(succ.get(x, ())):
                if y == b:
                    r = [x, y]
                    while seen[x] is not None:
                        x = seen[x]
                        r.insert(0, x)
                    return r
                if y not in seen:
                    seen[y] = x
                    todo.append(y)
        return None
    for (a, b), v in sorted(edges.items()):
        back = [a, a] if a == b else path(b, a)
        if back:
            ck.find('lock-order', '%s then %s in %s' % (a, b, v[2]),
                    'locks are taken in a cyclic order: %s is locked while %s is held, and elsewhere %s' % (
                        v[1], v[0], ' -> '.join(back)), v[3], v[4])
    ck.require('lock-acquisition', 20)
    ck.require('blocking-site', 6)
    ck.assumptions += ['mutexes of different objects of one class are one node of the order (a nested acquisition of two of them is a '
                       'cycle)', 'a try-lock does not block', 'virtual calls made with a lock held are followed into every override '
                       'in the library and the witnesses']
    return ck.finish('Lock-order graph: on every path of every entry point (virtual calls followed while a lock is held) an edge from '
                     'each mutex held to each mutex acquired by blocking; the graph over mutex roles (class and field) must be '
                     'acyclic, no held mutex may be locked again, and condition waits, joins and sleeps may hold no other lock.')
