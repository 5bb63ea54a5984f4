"""F10: the function of a join gets the values of the inputs, each in the place of its input, and the index of the input that won; a join
that failed calls nothing and passes the error of an input on."""
import re

import common
import joins
from absint import show
from joins import Joins, api, ctx_field, input_roots, key, ld_of, norm_test, path_of
from futures import is_task_root
from names import last
from rules.f09 import params, section


def fkey(a):
    """name of the stlab field an address or loaded value lies in, with the elements inside it"""
    if a is None:
        return None
    if a.k not in ('fld', 'elt'):
        a = ld_of(a)
        if a is None:
            return None
    o, fs = path_of(a)
    i = max([i for i, (c, n) in enumerate(fs) if c.startswith('stlab::') and n and not n.startswith('#')], default=None)
    if i is None:
        return None
    while i > 0 and fs[i - 1][0].startswith('stlab::') and fs[i - 1][1] not in ('_p', '_f') and not fs[i - 1][1].startswith('#') \
            and not fs[i][1]:
        i -= 1
    return key(fs[i:])


def join_params(d):
    """the parameters of the innermost function taking futures (or iterators over futures) named in a demangled name"""
    best = None
    stack = []
    for i, c in enumerate(d):
        if c in '(<':
            stack.append(i)
        elif c in ')>' and stack and not (c == '>' and d[i - 1] == '-'):
            b = stack.pop()
            if c == ')':
                ps = params(d[b:i + 1])
                if len(ps) > 2 and (any(x.startswith('stlab::future<') for x in ps) or 'stlab::future<' in ps[-1] and 'iterator' in ps[-1]):
                    best = ps
    return best


def run(ck):
    p = common.load(ck, common.ALL_UNITS)
    J = Joins(p)
    pay, idxk, errk, flagk = {}, {}, {}, {}
    late = []

    def inputs(res, fn, outs):
        if not any(k == 'ret' and any(x[0] == 'R' for x in st.tr) for k, r, st in outs):
            return
        a = api(fn)
        if a is None:
            return
        where = '%s:%s' % (fn.file, fn.line)
        ep = ('entry point ' + common.short_fn(fn.d),)
        void = 'shared_base<void, void>::recover' in fn.d
        m = re.search(r'attach_when_arg_<(\d+)', fn.d)
        n = m.group(1) if m else None
        fam = 'of when_%s%s' % (a, '' if n else ' on a range')
        res.inst('input-body', fn.m)
        res.inst('input-' + a + ('' if n else '-range'), fn.m)
        for k, r, st in outs:
            tr = st.tr
            if k != 'ret' or ('A', True) not in tr:
                continue
            ex = [x[1] for x in tr if x[0] == 'EX']
            rr = [i for i, x in enumerate(tr) if x[0] == 'R']
            ws = [(i, x) for i, x in enumerate(tr) if x[0] == 'W']
            if not rr and (a == 'any' or True in ex):
                for i, x in ws:
                    res.x.setdefault('late', []).append((re.sub(r'(\.\*)+$', '', x[1]), fam, where, ep))
            if True in ex:
                if rr:
                    e = [(i, x) for i, x in ws if x[3] == 'input error' and i < rr[0]]
                    if not e:
                        res.find('error-lost', 'error ' + fam, 'the error of the input that fails the join is not kept', where, ep)
                    for i, x in e:
                        res.x.setdefault('err', set()).add(x[1])
                        if not section(tr, i):
                            res.find('error-late', 'error ' + fam, 'the error is written outside the critical section', where, ep)
                continue
            dec = [i for i, x in enumerate(tr) if x[0] == 'DEC']
            if not rr and not dec:
                continue
            const = [(i, x) for i, x in ws if re.match(r'c-?\d+$|captured$', x[3])]
            vals = [(i, x) for i, x in ws if (i, x) not in const and x[3] not in ('input error', '_f')]
            if not void:
                res.inst('payload', fn.m)
                if not vals:
                    res.find('value-lost', 'value ' + fam, 'the value of an input is not stored', where, ep)
                for i, x in vals:
                    s = section(tr, i)
                    if not s or rr and i > rr[0]:
                        res.find('value-late', 'value ' + fam, 'the value of an input is stored outside the critical section that counts it: '
                                 'the function may run without it', where, ep)
                    if n is not None and a == 'all':
                        mm = re.search(r'\.(\d+)(\.\*)?$', x[1])
                        if not mm or mm.group(1) != n:
                            res.find('wrong-place', 'value ' + fam, 'the value of input %s is stored as %s' % (n, last(x[1])), where, ep)
                    if n is None and a == 'all':
                        ix = [y for y in tr[:i] if y[0] == 'IDX' and x[1].startswith(y[1])]
                        if not ix or ix[-1][2] != 'captured':
                            res.find('wrong-place', 'value ' + fam, 'the value of an input is not stored at its own index', where, ep)
                    res.x.setdefault('pay', set()).add(re.sub(r'(\.\*)+$', '', x[1]))
            if a == 'any':
                res.inst('index', fn.m)
                good = [x for i, x in const if x[3] == ('c' + n if n else 'captured')]
                for x in good:
                    res.x.setdefault('idx', set()).add(x[1])
                if not good:
                    res.find('wrong-index', 'index ' + fam, 'the join keeps %s as the index of the winner instead of %s' % (
                        ', '.join(x[2] for i, x in const) or 'nothing', n or 'the index of the input'), where, ep)

    def after(res, fn, outs):
        inputs(res, fn, outs)
        res.x['fn'] = fn
    fns = input_roots(p)
    for r in J.scan(ck, after, fns):
        fn = r.x['fn']
        a = api(fn)
        for nm, dct in (('pay', pay), ('idx', idxk), ('err', errk)):
            for x in r.x.get(nm, ()):
                dct.setdefault(a, set()).add(x)

        for x, fam, where, ep in r.x.get('late', ()):
            late.append((a, x, fam, where, ep))
    for a, x, fam, where, ep in late:
        if x in {re.sub(r'(\.\*)+$', '', y) for d in (pay, idxk, errk) for y in d.get(a, ())}:
            ck.find('overwritten', 'input ' + fam, 'an input that does not decide the join changes what the function of the join is given (%s)' % last_field(x),
                    where, ep)

    def extra(ev, st):
        if ev.kind in ('call', 'user') and ev.q and re.match(r'^w::m?fn::operator\(\)$', ev.q):
            out = []
            for x in ev.args[1:]:
                s = show(x)
                c = next((y[2] for y in reversed(st.tr) if y[0] == 'CP' and y[1] == s), None)
                out.append(c or fkey(x) or fkey(st.env.get(x)) or '?' + s[:40])
            return ('UC', tuple(out))
        if ev.kind == 'throw' and ev.args:
            v = st.env.get(ev.args[0])
            return ('RT', fkey(v) or fkey(ev.args[0]) or '?')
        if ev.kind == 'user' and len(ev.args) == 2 and re.match(r'^w::(\w+)::\1$', ev.q):
            s = show(ev.args[1])
            f = fkey(ev.args[1]) or next((y[2] for y in reversed(st.tr) if y[0] == 'CP' and y[1] == s), None)
            if f:
                return ('CP', show(ev.args[0]), f)
        if ev.kind == 'assume':
            x = ld_of(ev.args[0])
            if x is not None:
                f = fkey(x)
                if f and ctx_field(x, True):
                    t = norm_test(ev.args[0], bool(ev.val.a[0]))
                    return ('TT', f, t[2] if t[0] == 'set' else not t[2] if t[0] == 'eq' and t[1] == 0 else None)

    def ends(res, fn, outs):
        a = api(fn)
        ps = join_params(fn.d)
        if a is None or ps is None or not any(x[0] == 'UC' for k, r, st in outs for x in st.tr):
            return
        if any(x[0] == 'R' for k, r, st in outs for x in st.tr):
            return
        where = '%s:%s' % (fn.file, fn.line)
        ep = ('entry point ' + common.short_fn(fn.d),)
        futs = [t for t in ps if t.startswith('stlab::future<')]
        rng = not futs
        void = [t.startswith('stlab::future<void') for t in futs] if futs else [None]
        if rng:
            void = ['future<void, void>' in ps[-1]]
        fam = 'of when_%s%s' % (a, ' on a range' if rng else '')
        res.inst('end-body', fn.m)
        res.inst('end-' + a + ('-range' if rng else ''), fn.m)
        vk, ik, ek = pay.get(a, set()), idxk.get(a, set()), errk.get(a, set())
        for k, r, st in outs:
            tr = st.tr
            uc = [(i, x) for i, x in enumerate(tr) if x[0] == 'UC']
            err = [x[2] for x in tr if x[0] == 'TT' and x[1] in ek]
            has = {}
            for x in tr:
                if x[0] == 'TT' and last_field(x[1]) == 'has':
                    has[x[1]] = x[2]
            failed = True in err or (False in has.values() and a == 'all' and not rng)
            rt = [x[1] for x in tr if x[0] == 'RT']
            if failed:
                if uc:
                    res.find('called-after-error', 'function ' + fam, 'the function of a failed join is called', where, ep)
                elif not any(x in ek for x in rt):
                    res.find('error-not-passed', 'function ' + fam, 'a failed join does not pass on the error of an input (it passes on %s)' % (
                        ', '.join(rt) or 'nothing'), where, ep)
                continue
            if not uc:
                if k == 'ret' and not rt and tr:
                    res.find('not-called', 'function ' + fam, 'a join that succeeded does not call its function', where, ep)
                continue
            if len(uc) > 1:
                res.find('called-twice', 'function ' + fam, 'the function of a join is called twice', where, ep)
            i, x = uc[0]
            direct = not any(y[0] == 'TT' for y in tr)
            args = x[1]
            if not rng and a == 'all':
                if False not in err:
                    got = {m.group(1) for h, v in has.items() if v for m in [re.search(r'\.(\d+)\.has$', h)] if m}
                    miss = [j for j in range(len(void)) if str(j) not in got]
                    if miss:
                        res.find('called-after-error', 'function ' + fam, 'the function is called without looking whether input %s failed' % miss, where, ep)
                want = [str(j) for j in range(len(void)) if not void[j]]
                have = [m.group(1) if m else y for y in args for m in [re.search(r'\.(\d+)(\.\*)?$', y)]]
                bad = [y for y in args if not any(y.startswith(v) for v in vk)]
                if have != want or bad:
                    res.find('wrong-argument', 'function ' + fam, 'the function gets %s for the inputs %s' % (list(args), want), where, ep)
                continue
            if direct and rng and all('?' not in y for y in args) and not any('_index' in y for y in args) and a == 'all':
                res.inst('empty-range', fn.m)
            elif False not in err:
                res.find('called-after-error', 'function ' + fam, 'the function is called without looking whether the join failed', where, ep)
            want = ([vk] if not void[0] else []) + ([ik] if a == 'any' else [])
            ok = len(want) == len(args)
            for w, y in zip(want, args):
                y = re.sub(r'(\.\*|\.\[\])+$', '', y)
                if y not in {re.sub(r'(\.\*|\.\[\])+$', '', z) for z in w}:
                    ok = False
            if not ok:
                res.find('wrong-argument', 'function ' + fam, 'the function gets %s' % list(args), where, ep)
    J.scan(ck, ends, [f for f in fns if api(f)], extra=extra, strong=True)
    ck.require('input-body', 12)
    ck.require('payload', 8)
    ck.require('index', 4)
    for x in ('all', 'any', 'all-range', 'any-range'):
        ck.require('end-' + x, 2)
        ck.require('input-' + x, 2)
    ck.assumptions += ['copies and moves of values do not throw', 'the order of evaluation inside a join is decided by F09']
    return ck.finish('Field provenance over all paths of every instantiated join: what each input body writes, where and under which lock, and which '
                     'fields of the context the end body reads for each argument of the function, related by the fields learned from the inputs.')


def last_field(k):
    return k.rsplit('.', 1)[-1]
