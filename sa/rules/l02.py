"""L02: shared mutable state is accessed only with its lock held."""
import common
from absint import mk, root, show
from build import Broken
from guarded import TABLE, access, ctor_dtor, mutates
from names import last, tname

SKIPK = ('enter', 'leave', 'assume', 'lock', 'unlock', 'lpad', 'catch', 'endcatch', 'cvunlock', 'cvwait', 'notify', 'throw',
         'terminate', 'unknownlock')


def run(ck):
    p = common.load(ck, common.ALL_UNITS)
    guard = {}      # (class, field) -> (mutex, mode)
    for cls, spec in TABLE.items():
        if spec is None:
            continue
        ts = p.by_tname.get(cls)
        if not ts:
            raise Broken('class %s is gone' % cls)
        for t in ts:
            mx = [f[0] for f in t['f'] if f[1] in ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex')]
            for name, ty, off, line in (g[:4] for g in t['f']):
                if name in mx or ty.startswith(('std::condition_variable', 'const ')) or name in spec.get('free', {}) \
                        or name in spec.get('pub', {}):
                    continue
                m = spec.get('mutex', {}).get(name)
                if m is None or m not in mx:
                    if spec.get('mutex'):
                        continue        # several mutexes: only the listed fields
                    if len(mx) != 1:
                        if not mx:
                            ck.find('guard-missing', '%s has no mutex' % cls, 'the class has no mutex any more', cls)
                        continue
                    m = mx[0]
                mode = 'w' if name in spec.get('w', {}) else 'rw'
                if ty.startswith('std::atomic') and mode == 'rw' and name not in spec.get('mutex', {}):
                    continue
                guard[(cls, name)] = (m, mode, name in spec.get('w_size', ()), name in spec.get('size_free', ()))
    classes = {c for c, s in TABLE.items() if s is not None}
    ck.cov['guarded_fields'] = sorted('%s::%s by %s (%s)' % (c, f, g[0], 'writes' if g[1] == 'w' else 'all accesses')
                                      for (c, f), g in guard.items())
    ck.cov['free_fields'] = sorted('%s::%s: %s' % (c, f, r) for c, s in TABLE.items() if s for f, r in s.get('free', {}).items())

    def mkon(res, fn):
        def on(ev, st):
            if ev.kind in SKIPK:
                return
            args = ev.args[:1] if ev.kind in ('load', 'store', 'rmw') else ev.args
            for i, a in enumerate(args):
                x = access(a, classes)
                if x is None:
                    continue
                obj, cls, field, ccls = x
                g = guard.get((cls, field))
                if g is None:
                    continue
                mx, mode, wsize, sfree = g
                ln = last(ev.q) if ev.kind not in ('load', 'store', 'rmw') else ev.kind
                if ctor_dtor(ev, cls) or root(obj).k == 'al' and ev.kind == 'dtor':
                    continue
                if sfree and ln in ('size', 'empty'):
                    continue
                mut = mutates(ev, i)
                if mode == 'w' and not mut and not (wsize and ln in ('size', 'empty')):
                    continue
                if mode == 'w' and ev.kind == 'dtor':
                    continue
                need = mk('fld', obj.c, ccls, mx)
                res.inst('guarded-access', '%s::%s %s in %s' % (cls, field, ln, ev.fn.q))
                if need in ev.locks:
                    continue
                res.find('guarded-by', '%s of %s::%s in %s' % (ln, cls, field, ev.fn.q),
                         '%s::%s is %s without %s (held: %s)' % (cls, field, 'modified' if mut else 'read', mx,
                                                               ', '.join(show(l) for l in ev.locks) or 'nothing'),
                         ev.where(), ['entry point ' + common.short_fn(fn.d)] + common.trail(ev))
        return on
    common.scan(ck, p, None, mkon)
    ck.require('guarded-access', 60)
    ck.assumptions += ['an object under construction or destruction is not shared',
                       'objects of the listed classes are distinguished by the expression that reaches them']
    return ck.finish('Lockset analysis: every field of the listed synchronised classes is guarded by the mutex of its object, except '
                     'the fields listed as free with the reason; on every path of every entry point each access (load, store, '
                     'container operation) must happen with that mutex of the same object held.')
