"""F09: a join runs its function exactly once: when_all at the last value or the first error, when_any at the first value or the last
error."""
import re

import common
import joins
from absint import show
from joins import Joins, api, input_roots, satisfies, simple
from names import last


def section(tr, idx):
    """(index of LK, index of UL) of the critical section around a position, or None"""
    lo = None
    for i in range(idx, -1, -1):
        if tr[i] == ('UL',):
            return None
        if tr[i] == ('LK',):
            lo = i
            break
    if lo is None:
        return None
    for i in range(idx, len(tr)):
        if tr[i] == ('UL',):
            return (lo, i)
    return (lo, len(tr))


def loaded(tr, j):
    """where the value tested at position j was read"""
    t = tr[j]
    for i in range(j, -1, -1):
        if tr[i][0] == 'LD' and tr[i][1] == t[1] and tr[i][2] == t[3]:
            return i
    return j


def run(ck):
    p = common.load(ck, common.ALL_UNITS)
    J = Joins(p)
    fns = input_roots(p)

    def after(res, fn, outs):
        res.x['outs'] = [(k, st.tr) for k, r, st in outs if k == 'ret']
        res.x['fn'] = fn
    rs = J.scan(ck, after, fns)
    flags, counters, targets, joined = {}, {}, {}, []
    for r in rs:
        fn, outs = r.x['fn'], r.x['outs']
        if any(x[0] == 'R' for k, tr in outs for x in tr):
            joined.append((fn, outs))
    for fn, outs in joined:
        a = api(fn)
        if a is None:
            continue
        where = '%s:%s' % (fn.file, fn.line)
        ep = ('entry point ' + common.short_fn(fn.d),)
        ck.inst('input-body', fn.m)
        ck.inst('join-' + a, fn.m)
        fired = set()
        for k, tr in outs:
            if ('A', False) in tr or ('A', True) not in tr:
                if any(x[0] == 'R' for x in tr):
                    ck.find('fires-dead', 'input of when_' + a, 'the join is fired without having been found alive', where, ep)
                continue
            ex = [x[1] for x in tr if x[0] == 'EX']
            rr = [i for i, x in enumerate(tr) if x[0] == 'R']
            dec = [i for i, x in enumerate(tr) if x[0] == 'DEC']
            key = 'input of when_%s (%s)' % (a, 'error' if ex and ex[0] else 'value')
            if len(set(ex)) != 1:
                ck.find('error-not-checked', key, 'an input of the join is taken without looking whether it holds an error', where, ep)
                continue
            if len(rr) > 1:
                ck.find('fires-twice', key, 'one input fires the join twice', where, ep)
            counting = ex[0] == (a == 'any')
            if counting:
                zero = None
                for i in dec:
                    d = tr[i]
                    counters.setdefault((a, d[1]), set()).add(d[2])
                    s = section(tr, i)
                    for j in range(len(tr)):
                        t = tr[j]
                        if t[0] == 'T' and t[1] == d[1] and t[2][0] == 'eq' and isinstance(t[2][1], int):
                            n = t[2][1] + d[2] if t[3] == d[3] else t[2][1]
                            if s and (t[3] == d[3] or s[0] < loaded(tr, j) < s[1]):
                                zero = t[2][2]
                                targets.setdefault((a, d[1]), {}).setdefault((fn.d, n), (key, where, ep))
                            elif zero is None:
                                ck.find('unlocked-count', key, 'the number of missing inputs is decremented and tested in different critical '
                                        'sections: two inputs may both find it zero, or neither', where, ep)
                                zero = '?'
                if dec and zero is None:
                    ck.find('no-test', key, 'an input is counted without testing whether it was the last', where, ep)
                if len(dec) > 1:
                    ck.find('counts-twice', key, 'one input is counted twice', where, ep)
                if dec:
                    if zero is True and not rr:
                        ck.find('not-fired', key, 'the last input does not fire the join', where, ep)
                    if zero is False and rr:
                        ck.find('fires-early', key, 'the join is fired although inputs are missing', where, ep)
                elif rr:
                    ck.find('fires-early', key, 'the join is fired without counting the input', where, ep)
                else:
                    ts = [t for t in tr if t[0] == 'T']
                    if not ts:
                        ck.find('not-counted', key, 'an input is not counted', where, ep)
                    for t in ts:
                        flags.setdefault((a, t[1]), []).append(('skip', t[2], key, where, ep))
                if rr:
                    fired.add(key)
            else:
                if dec:
                    ck.find('counts-wrong', key, 'an input is counted among those whose %s are awaited' % (
                        'values' if a == 'all' else 'errors'), where, ep)
                ts = [i for i, x in enumerate(tr) if x[0] == 'T']
                if rr:
                    fired.add(key)
                    ok = False
                    for i in ts:
                        s = section(tr, loaded(tr, i))
                        ws = [x for x in tr[s[0]:s[1]] if x[0] == 'W' and x[1] == tr[i][1]] if s else []
                        if ws:
                            ok = True
                            w = ws[-1]
                            val = int(w[3][1:]) if re.match(r'c-?\d+$', w[3]) else 'set' if w[3] == 'input error' else \
                                0 if w[3] == 'captured' else w[2]
                            flags.setdefault((a, tr[i][1]), []).append(('open', tr[i][2], key, where, ep))
                            flags[(a, tr[i][1])].append(('close', val, key, where, ep))
                    if not ok:
                        ck.find('not-latched', key, 'the join is fired by an input without testing and closing, in one critical section, a flag '
                                'that lets only the first one through', where, ep)
                else:
                    if not ts:
                        ck.find('not-fired', key, 'an input that decides the join does not fire it', where, ep)
                    for i in ts:
                        flags.setdefault((a, tr[i][1]), []).append(('skip', tr[i][2], key, where, ep))
        for kind in ('error', 'value'):
            key = 'input of when_%s (%s)' % (a, kind)
            if key not in fired and any(('A', True) in tr for k, tr in outs):
                ck.find('not-fired', key, 'no %s of an input ever fires the join' % kind, where, ep)
    inits = {}
    for (a, f) in list(flags) + list(counters):
        cls = f[:f.rfind('.')]
        if cls not in inits:
            inits[cls] = J.inits(cls)
    for (a, f), us in flags.items():
        opens = {u[1] for u in us if u[0] == 'open'}
        for u in us:
            if u[0] == 'skip' and opens and u[1] in opens:
                ck.find('not-fired', u[2], 'an input finds the join undecided and does not fire it', u[3], u[4])
            if u[0] == 'close':
                for o in opens:
                    if satisfies(u[1], o):
                        ck.find('not-latched', u[2], 'the flag that lets only the first input through stays open', u[3], u[4])
        for ctor, v in inits[f[:f.rfind('.')]].get(f, ()):
            ck.inst('flag-init', '%s = %s' % (f, simple(v)))
            for o in opens:
                if satisfies(simple(v), o) is False:
                    ck.find('closed-at-start', 'flag of when_' + a, 'the flag that lets the first input through starts closed', f, (ctor,))
    for (a, f), ds in counters.items():
        ck.inst('counter', f)
        if len(ds) != 1 or abs(min(ds)) != 1:
            ck.find('wrong-count', 'counter of when_' + a, 'inputs change the number of missing inputs by %s' % sorted(ds), f)
            continue
        d = min(ds)
        for ctor, v in inits[f[:f.rfind('.')]].get(f, ()):
            ck.inst('counter-init', '%s = %s' % (f, simple(v)))
            want = 0
            if v.k == 'c':
                inst = ctor[:ctor.rfind('::' + last(f[:f.rfind('.')]) + '(')]
                n = len([1 for fn, outs in joined if inst in fn.d])
                if not n:
                    continue
                want = v.a[0] + n * d
            elif v.k == 'bin' or d != -1:
                ck.find('counter-start', 'counter of when_' + a, 'the join starts counting from %s' % show(v), f, (ctor,))
            for (fd, t), (key, where, ep) in targets.get((a, f), {}).items():
                if t != want and (v.k != 'c' or inst in fd):
                    ck.find('wrong-count', key, 'counting from %s by %d, the join is fired at %s instead of %s' % (simple(v), d, t, want), where, ep)
    creation(ck, p, J)
    ck.require('input-body', 12)
    ck.require('join-all', 6)
    ck.require('join-any', 4)
    ck.require('attach', 4)
    ck.require('creation', 6)
    ck.assumptions += ['copies and moves of values do not throw', 'a joined input is resolved at most once (F03)']
    return ck.finish('Latch analysis of every instantiated join input body over all paths: (error?) x (flag tested / counter decremented and '
                     'tested, in one critical section) x (fires?) is tabulated; the initial values of flag and counter are taken from the '
                     'constructors and compared with the number of inputs; each attached continuation is held in the slot of its index.')


def params(d):
    """parameter types of a demangled function"""
    if not d.endswith(')'):
        return []
    n, out, cur = 0, [], ''
    for c in reversed(d):
        if c in ')>':
            n += 1
            if n == 1:
                continue
        elif c in '(<':
            n -= 1
            if n == 0:
                break
        elif c == ',' and n == 1:
            out.append(cur[::-1].strip())
            cur = ''
            continue
        cur += c
    return [x for x in reversed(out + [cur[::-1].strip()]) if x]


def creation(ck, p, J):
    """the entry points: the function is in place before the first input is attached, every input is attached, under its own index; the
    join of a range is created for as many inputs as the range has"""
    fns = [f for f in p.funcs.values() if re.match(r'^stlab::(when_all|when_any)$', f.q)]

    def on(ev, st):
        if ev.kind == 'enter' and ev.q == 'stlab::future::recover':
            clo = ev.args[-1]
            caps = [v for a, v in st.env.items() if a.k == 'fld' and a.a[0] is clo]
            ctx = [v for v in caps if v.k in ('ptrh', 'new')]
            idx = [v for v in caps if v.k == 'c' or v.k == 'ph' or v.k == 'bin']
            m = re.search(r'attach_when_arg_<(\d+)', ev.full)
            n = int(m.group(1)) if m else idx[0].a[0] if len(idx) == 1 and idx[0].k == 'c' else '?' if idx else None
            return ('ATT', n, bool(ctx))
        if ev.kind in ('enter', 'call') and ev.q in ('stlab::packaged_task::operator=', 'stlab::packaged_task::swap'):
            for a in ev.args[:2]:
                o, fs = joins.path_of(a)
                if o.k == 'd' and fs and not joins.NOTCTX.match(fs[0][0]):
                    return ('SETF',)
        if ev.kind in ('enter', 'call') and ev.q == 'std::make_shared' and len(ev.args) > 1 and 'ontext' in ev.full[:200] + ev.full[-200:]:
            v = st.env.get(ev.args[1], ev.args[1])
            return ('MK', v.k, str(v.a[0]) if v.k in ('res', 'c') else show(v))

    def after(res, fn, outs):
        where = '%s:%s' % (fn.file, fn.line)
        api = last(fn.q)
        rng = any(t.startswith('std::pair<') for t in params(fn.d))
        n = len([t for t in params(fn.d) if t.startswith('stlab::future<')])
        ep = ('entry point ' + common.short_fn(fn.d),)
        full = 0
        res.inst('creation', fn.m)
        for k, r, st in outs:
            if k != 'ret':
                continue
            att = [x for x in st.tr if x[0] == 'ATT']
            for i, x in enumerate(att):
                if x[1] != i and not (x[1] == '?' and i > 0):
                    if i < 2 or isinstance(x[1], int):
                        res.find('wrong-index', 'attachments of ' + api, 'input %d of the join is attached as input %s' % (i, x[1]), where, ep)
                        break
            if att:
                first = st.tr.index(att[0])
                if ('SETF',) not in st.tr[:first]:
                    res.find('function-late', 'attachments of ' + api, 'an input is attached before the join has its function: an input that is '
                             'ready fires nothing', where, ep)
            full = max(full, len(att))
            for x in st.tr:
                if x[0] == 'MK' and (x[1] == 'bin' or x[1] == 'c' and att):
                    res.find('counter-start', 'creation of ' + api, 'the join of a range is created for %s inputs' % x[2], where, ep)
            if not rng and len(att) != n:
                res.find('not-attached', 'attachments of ' + api, '%d of %d inputs are attached' % (len(att), n), where, ep)
        if rng and full < 2:
            res.find('not-attached', 'attachments of ' + api, 'at most %d inputs of a range are attached' % full, where, ep)

    common.scan(ck, p, None, lambda res, fn: on, after=after, fns=sorted(fns, key=lambda f: f.m), throws=lambda ev: False)
    one_by_one(ck, p, J)


def one_by_one(ck, p, J):
    """each helper that attaches one input: what it gets from recover ends up in the slot of its index"""
    R = J.R
    fns = []
    for f in p.funcs.values():
        if not f.q.startswith('stlab::detail::') or "'lambda'" in f.q:
            continue
        cal = set()
        for b in f.load():
            for i in b:
                if i['o'] == 'call' and isinstance(i.get('f'), str):
                    cal.add(i['f'])
        d = [p.dem(m) for m in cal]
        if any('stlab::future<' in x and '::recover<' in x for x in d) and any(re.search(r'future<void, void>::operator=\(|future<.*>::swap\(', x)
                                                                               for x in d):
            fns.append(f)

    def extra(ev, st):
        if ev.kind == 'enter' and ev.q == 'stlab::future::recover':
            return ('ATT',)
        if ev.kind in ('enter', 'call') and ev.q in ('stlab::future::operator=', 'stlab::future::swap') and ev.args and ev.args[0].k == 'elt':
            return ('HOLD', bool(ev.locks))
        if ev.kind == 'call' and last(ev.q) in ('operator[]', 'at') and len(ev.args) > 1 and ev.args[0].k == 'fld':
            return ('SLOT', show(ev.args[1]))

    def after(res, fn, outs):
        where = '%s:%s' % (fn.file, fn.line)
        m = re.search(r'attach_when_arg_<(\d+)', fn.d)
        for k, r, st in outs:
            if k != 'ret':
                continue
            res.inst('attach', fn.m)
            att = sum(1 for x in st.tr if x == ('ATT',))
            h = [x for x in st.tr if x[0] == 'HOLD']
            if att != 1:
                res.find('attached-%d-times' % att, 'attachment of an input', 'an input of a join is attached %d times' % att, where)
            if not h:
                res.find('not-held', 'attachment of an input', 'what attaching an input returns is dropped, which cancels it', where)
            slot = [x[1] for x in st.tr if x[0] == 'SLOT']
            if m and slot and any(x.isdigit() and x != m.group(1) for x in slot):
                res.find('wrong-slot', 'attachment of an input', 'input %s is held in slot %s: another input is dropped and cancelled' % (
                    m.group(1), ','.join(slot)), where)
    common.scan(ck, p, None, lambda res, fn: extra, after=after, fns=sorted(fns, key=lambda f: f.m), throws=lambda ev: False)
