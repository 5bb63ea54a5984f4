"""L01: user callables never run, and futures are never released, while an internal lock is held."""
import common
from absint import show, Interp
from locks import Reach, lockid, releases, user_call
from names import last
from roots import roots

TRY = {}


def run(ck):
    p = common.load(ck, common.ALL_UNITS)
    reach = Reach(p)

    def mkon(res, fn):
        res.x['modes'] = {}
        res.x['hits'] = {}

        def on(ev, st):
            if ev.kind == 'lock':
                res.x['modes'].setdefault(lockid(ev.args[0]), set()).add(ev.q)
                res.inst('critical-section', lockid(ev.args[0]))
                return
            if ev.kind == 'unknownlock':
                return
            what = None
            if user_call(ev):
                what = 'user callable %s' % ev.q
            elif ev.kind == 'vcall':
                if any(reach.user(m) for m in (ev.extra or ())):
                    what = 'virtual %s, which runs user code' % ev.q
            elif ev.locks and releases(ev, st):
                what = 'release of a future or process by %s' % ev.q
            if what is None:
                return
            res.inst('user-code-site', '%s in %s' % (ev.q, ev.fn.q))
            if not ev.locks:
                return
            for l in ev.locks:
                k = (lockid(l), what, ev.fn.q)
                if k not in res.x['hits']:
                    res.x['hits'][k] = (ev.where(), tuple(['entry point ' + common.short_fn(fn.d)] + common.trail(ev)))
        return on
    out = common.scan(ck, p, None, mkon)
    modes = {}
    for r in out:
        for k, v in r.x['modes'].items():
            modes.setdefault(k, set()).update(v)
    tryonly = {k for k, v in modes.items() if v == {'try'}}
    ck.cov['locks'] = sorted(modes)
    ck.cov['locks_only_ever_tried'] = sorted(tryonly)
    for r in out:
        for (lk, what, fq), (where, path) in r.x['hits'].items():
            if lk in tryonly:
                continue
            ck.find('no-user-code-under-lock', '%s in %s under %s' % (what, fq, lk),
                    '%s while %s is held' % (what, lk), where, path)
    ck.require('critical-section', 10)
    ck.require('user-code-site', 60)
    ck.assumptions += [
        'value semantics (copy, move, destruction) of user value types may happen under a lock; calls of user functions, processes and executors may not',
        'a mutex that is only ever acquired by try_lock never blocks anybody and is exempt',
        'std::bad_alloc is not modelled',
    ]
    return ck.finish('Every library entry point reachable from the witness programs is interpreted abstractly on all paths, '
                     'tracking the set of held mutexes through guards, unlock/relock, try-locks and condition waits; at each '
                     'invocation of a user callable, at each virtual call whose implementations reach one, and at each '
                     'release of an owning handle on a future or process the set must be empty.')
