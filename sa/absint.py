"""Path-sensitive abstract interpreter over the dumped SSA, inlining the library's own functions.

State: environment of local cells, facts assumed at branches, locks held, trace of the events a rule
asked for (each label kept at most twice, so the domain is finite and loops reach a fixpoint).
Nothing is executed and no path is handed to a solver: branch facts are equalities on terms.
"""
import re
import sys

from ir import liveness, norm
from names import qname, last, scope, tname

sys.setrecursionlimit(20000)

MAXDEPTH = 9
QUERY = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'empty', 'size', 'operator<=>', 'operator>', 'operator<'}


class T:
    __slots__ = ('k', 'a', 'site', 'ctx', '_c', '_lv', 'd', '_s', 'bd')
    tab = {}

    def __init__(self, k, a, site, ctx):
        self.k = k
        self.a = a
        self.site = site
        self.ctx = ctx
        self._c = None
        self._lv = None
        self._s = None
        self.d = 1 + max([x.d for x in a if isinstance(x, T)] or [0])
        self.bd = max([x.bd for x in a if isinstance(x, T)] or [0]) + (1 if k == 'bin' else 0)

    def __repr__(self):
        return show(self)

    @property
    def c(self):
        """canonical term: call sites and load sites stripped"""
        if self._c is None:
            a = tuple(x.c if isinstance(x, T) else x for x in self.a)
            if self.k == 'lk':
                self._c = a[0]
            elif self.k in ('al', 'new'):
                self._c = self
            else:
                self._c = mk(self.k, *a)
        return self._c

    @property
    def lv(self):
        if self._lv is None:
            s = set()
            if self.site is not None and self.k != 'al':
                s.add(self)
            for x in self.a:
                if isinstance(x, T):
                    s |= x.lv
            self._lv = frozenset(s)
        return self._lv


def mk(k, *a, site=None, ctx=None):
    key = (k, a, site, ctx)
    t = T.tab.get(key)
    if t is None:
        t = T(k, a, site, ctx)
        T.tab[key] = t
    return t


def C(n):
    return mk('c', n)


NULL = mk('null')
UND = mk('u')
TRUE = C(1)
FALSE = C(0)


def short(s):
    return s[s.rfind('::') + 2:] if '::' in s else s


def show(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    if t._s is None:
        k, a = t.k, t.a
        if k == 'c':
            r = str(a[0])
        elif k == 'null':
            r = 'null'
        elif k == 'u':
            r = 'undef'
        elif k == 'arg':
            r = a[1] or 'arg%d' % a[0]
        elif k == 'al':
            r = a[0] or 'tmp'
        elif k == 'g':
            r = '@' + a[0]
        elif k == 'fld':
            r = '%s.%s' % (show(a[0]), a[2])
        elif k == 'elt':
            r = '%s[]' % show(a[0])
        elif k == 'ld':
            r = '*%s' % show(a[0])
        elif k == 'd':
            r = '(*%s)' % show(a[0])
        elif k == 'res':
            r = '%s(%s)' % (short(a[0]), ','.join(show(x) for x in a[1:]))
        elif k == 'bool':
            r = 'bool(%s)' % show(a[0])
        elif k == 'not':
            r = '!%s' % show(a[0])
        elif k == 'cmp':
            r = '(%s %s %s)' % (show(a[1]), a[0], show(a[2]))
        elif k == 'bin':
            r = '(%s %s %s)' % (show(a[1]), a[0], show(a[2]))
        elif k == 'ph':
            r = show(a[0])
        else:
            r = '%s(%s)' % (k, ','.join(show(x) for x in a))
        t._s = r if len(r) < 160 else r[:157] + '...'
    return t._s


def root(t):
    """root of an address term"""
    while t.k in ('fld', 'elt'):
        t = t.a[0]
    return t


def add(t, n):
    if t.k == 'c':
        return C(t.a[0] + n)
    if t.k == 'bin' and t.a[0] == 'add' and t.a[2].k == 'c':
        m = t.a[2].a[0] + n
        return t.a[1] if m == 0 else mk('bin', 'add', t.a[1], C(m))
    return t if n == 0 else mk('bin', 'add', t, C(n))


def bnot(t):
    if t.k == 'c':
        return FALSE if t.a[0] else TRUE
    if t.k == 'not':
        return t.a[0]
    return mk('not', t)


def nonnull(t):
    return t.k in ('al', 'fld', 'g', 'new', 'elt', 'clo')


def split_add(t):
    if t.k == 'bin' and t.a[0] == 'add' and t.a[2].k == 'c':
        return t.a[1], t.a[2].a[0]
    return t, 0


def cmp_term(pred, a, b):
    if pred == 'ne':
        return bnot(cmp_term('eq', a, b))
    if pred in ('ugt', 'sgt'):
        return cmp_term(pred[0] + 'lt', b, a)
    if pred in ('uge', 'sge'):
        return bnot(cmp_term(pred[0] + 'lt', a, b))
    if pred in ('ule', 'sle'):
        return bnot(cmp_term(pred[0] + 'lt', b, a))
    if a.k == 'c' and b.k == 'c':
        x, y = a.a[0], b.a[0]
        if pred == 'eq':
            return TRUE if x == y else FALSE
        if pred == 'slt':
            return TRUE if x < y else FALSE
        if pred == 'ult':
            return TRUE if (x & (2**64 - 1)) < (y & (2**64 - 1)) else FALSE
    if pred == 'eq':
        if a is b:
            return TRUE
        if a.k == 'fld' and b.k == 'fld' and a.a[1] == b.a[1] == 'std::array' and a.a[0] is b.a[0]:
            return FALSE
        if a.k in ('c', 'null') or (b.k not in ('c', 'null') and id(a) > id(b)):
            a, b = b, a
        x, n = split_add(a)
        if n and b.k == 'c':
            a, b = x, C(b.a[0] - n)
        if b is NULL and nonnull(a):
            return FALSE
        if b.k == 'c' and a.k in ('bool', 'not', 'cmp'):  # i8 comparison of a boolean
            return bnot(a) if b.a[0] == 0 else a
        # x < 1 unsigned etc. are left alone
    if pred == 'ult' and b.k == 'c' and b.a[0] == 1:
        return cmp_term('eq', a, C(0))
    if pred == 'ult' and a.k == 'c' and a.a[0] == 0:
        return bnot(cmp_term('eq', b, C(0)))
    return mk('cmp', pred, a, b)


class Ev:
    __slots__ = ('kind', 'q', 'full', 'args', 'res', 'locks', 'fn', 'file', 'line', 'stack', 'val', 'extra', 'm', 'mo')

    def __init__(self, kind, q='', full='', args=(), res=None, val=None, extra=None, m=''):
        self.kind = kind
        self.q = q
        self.full = full
        self.args = args
        self.res = res
        self.val = val
        self.extra = extra
        self.m = m
        self.mo = None

    @property
    def addr(self):
        return self.args[0] if self.args else None

    def where(self):
        return '%s:%s' % (self.file, self.line)

    def __repr__(self):
        return '%s %s(%s)%s @%s %s' % (self.kind, self.q, ', '.join(show(a) for a in self.args),
                                       '' if self.val is None else ' = ' + show(self.val), self.line,
                                       'locks=' + ','.join(show(l) for l in self.locks) if self.locks else '')


class St:
    __slots__ = ('env', 'facts', 'locks', 'tr', '_k')

    def __init__(self, env, facts, locks, tr):
        self.env = env
        self.facts = facts
        self.locks = locks
        self.tr = tr

    def copy(self):
        return St(dict(self.env), dict(self.facts), self.locks, self.tr)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.facts.items()), self.locks, self.tr)


class Budget(Exception):
    pass


SMART = {'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::unique_ptr',
         'std::weak_ptr', 'std::__weak_ptr', 'std::__uniq_ptr_impl'}
IDENT = {'std::forward', 'std::move', 'std::addressof', 'std::__addressof', 'std::as_const', 'std::ref',
         'std::cref', 'std::__invfwd', 'std::launder', 'std::reference_wrapper::get', 'std::move_if_noexcept',
         'std::__niter_base', 'std::forward_like', 'std::__unwrap_ref', 'std::to_address', 'std::__to_address'}
CONT = {'std::vector', 'std::deque', 'std::list', 'std::array', 'std::map', 'std::set', 'std::queue',
        'std::priority_queue', 'std::stack', 'std::forward_list', 'std::initializer_list', 'std::span',
        'std::unordered_map', 'std::multimap', 'std::basic_string'}
ELT_M = {'front', 'back', 'operator[]', 'at', 'data', 'top'}
IT_M = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend'}
ITERS = ('__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::_List_iterator',
         'std::_List_const_iterator', 'std::reverse_iterator', 'std::move_iterator', 'std::_Rb_tree_iterator',
         'std::_Rb_tree_const_iterator')
LOCKC = {'std::unique_lock', 'std::lock_guard', 'std::scoped_lock', 'std::shared_lock'}
ATOM = re.compile(r'^std::(atomic|__atomic_base|atomic_flag|__atomic_ref\w*|__atomic_float)$')
VALCLS = {'std::function', 'stlab::task_', 'std::__exception_ptr::exception_ptr', 'std::optional',
          'std::vector', 'std::deque', 'std::pair', 'std::any', 'std::chrono::duration', 'std::chrono::time_point',
          'std::coroutine_handle', 'std::thread', 'std::variant', 'std::reference_wrapper', 'std::tuple'} | set(ITERS)
MOVECTOR = re.compile(r'\(([^()]*|.*)&&\)')


def paramtype(full):
    """type of the parameters of a demangled function"""
    if not full.endswith(')'):
        full = full[:full.rfind(')') + 1]
    n = 0
    for i in range(len(full) - 1, -1, -1):
        n += (full[i] == ')') - (full[i] == '(')
        if n == 0:
            return full[i + 1:-1]
    return ''


class Interp:
    """rule hooks:
        on(ev, st) -> label or None      label is appended to the trace
        throws(ev) -> bool               does this non-inlined call raise?
        inline(fn, args, st) -> bool     may refuse inlining (call becomes an event)
        devirt(ev, targets) -> list      functions to inline for a virtual call ([] = event only)
    """

    def __init__(self, prog, on=None, throws=None, inline=None, devirt=None, budget=400000, dup=2,
                 userq=None, modes=None, order=False, stable=None, cells=None, count=1, deep=False):
        # deep: elements of std::array and deeper boolean terms are tracked
        self.deep = deep
        # count: loop counters are kept apart up to this value
        self.count = count
        # cells(addr) -> None or (mutex field or '' for a cell that only its user changes, is it a bool?): shared
        # cells whose value is tracked (and split) while the mutex is held
        self.cells = cells
        self.stable = stable or (lambda a: False)
        self.p = prog
        self.on = on or (lambda ev, st: None)
        self.throws = throws or default_throws
        self.inline = inline or (lambda fn, args, st: True)
        self.devirt = devirt or (lambda ev, targets: [])
        self.budget = budget
        self.steps = 0
        self.dup = dup
        self.nctx = 0
        self.ctxs = {}
        self.stack = []
        self.active = []
        self.visited_fns = set()
        self.handles = set()
        self.nevents = 0
        self.ncalls = 0

    # ---------------------------------------------------------------- entry
    def run(self, fn, env=None, args=None):
        args = args or [mk('arg', i, a[0]) for i, a in enumerate(fn.args)]
        st = St(dict(env or {}), {}, (), ())
        self.steps = 0
        self.stack = []
        outs = self.call_fn(fn, args, self.ctx(0, fn.m, 0), st)
        return outs

    def ctx(self, parent, m, i):
        k = (parent, m, i)
        r = self.ctxs.get(k)
        if r is None:
            r = len(self.ctxs) + 1
            self.ctxs[k] = r
        return r

    # ---------------------------------------------------------------- events
    def emit(self, ev, st, fn, ins, at=None):
        ev.locks = tuple(l[0] for l in st.locks)
        ev.fn = fn
        l = ins.get('l')
        at = at or fn
        ev.file = at.files[l[0]] if l else at.file
        ev.line = l[1] if l else at.line
        ev.stack = tuple(self.stack)
        self.nevents += 1
        lab = self.on(ev, st)
        if lab is not None:
            if isinstance(lab, list):
                for x in lab:
                    self.addlab(st, x)
            else:
                self.addlab(st, lab)
        return ev

    def addlab(self, st, lab):
        if st.tr.count(lab) < self.dup:
            st.tr = st.tr + (lab,)

    # ---------------------------------------------------------------- values
    def val(self, v, ssa):
        if isinstance(v, int):
            return ssa.get(v, UND)
        k = v[0]
        if k == 'c':
            return C(v[1])
        if k == 'n':
            return NULL
        if k == 'g':
            return mk('g', v[1])
        if k == 'ge':
            return mk('fld', mk('g', v[1]), 'global', str(v[2])) if v[2] else mk('g', v[1])
        if k == 'z':
            return C(0)
        if k == 'u':
            return UND
        return mk('k', v[1])

    def local(self, addr):
        return root(addr).k in ('al', 'clo')

    def V(self, st, addr, site=None, ctx=None):
        r = st.env.get(addr)
        if r is not None:
            return r
        if addr.k == 'al' or not self.local(addr):
            # handle wrapped as the only content of a record (coerced struct)
            pass
        return mk('ld', addr)

    def two(self, tn):
        """the fields of a record of two (the ones that can be passed in two registers)"""
        if tn == 'std::pair':
            return ('first', 'second')
        fs = self.p.order.get(tn, ())
        return fs if len(fs) == 2 else ()

    def parts(self, st, a):
        tn = tname(a.a[1]) if a.a[1].startswith(('struct.', 'class.')) else ''
        l = [st.env.get(mk('fld', a, tn, f)) for f in self.two(tn)]
        return l if all(x is not None for x in l) else []

    def leaf(self, st, t):
        """a freshly produced sited term: whatever was assumed about its previous value is void"""
        if st.facts:
            dead = [f for f in st.facts if t in f.lv]
            for f in dead:
                del st.facts[f]
        return t

    def truth(self, st, t):
        if t.k == 'c':
            return bool(t.a[0])
        if t.k == 'not':
            r = self.truth(st, t.a[0])
            return None if r is None else not r
        if t is NULL:
            return False
        r = st.facts.get(t)
        if r is not None:
            return bool(r.a[0]) if r.k == 'c' else None
        if t.k == 'bool':
            h = t.a[0]
            if h is NULL:
                return False
            if h.k in ('new', 'ptrh', 'clo') or h.k == 'res' and h.a[0] == 'current_exception':
                return True
            return None
        if t.k == 'cmp' and t.a[0] == 'eq':
            a, b = t.a[1], t.a[2]
            fa = st.facts.get(a)
            if fa is not None and fa.k == 'c' and b.k == 'c':
                return fa.a[0] == b.a[0]
        if t.k in ('al', 'fld', 'g'):
            return True
        return None

    def assume(self, st, t, v):
        """returns a new state or None when infeasible"""
        r = self.truth(st, t)
        if r is not None:
            return st if r == v else None
        while t.k == 'not':
            t = t.a[0]
            v = not v
        s = st.copy()
        s.facts[t] = TRUE if v else FALSE
        if t.k == 'cmp' and t.a[0] == 'eq' and t.a[2].k == 'c' and v:
            s.facts[t.a[1]] = t.a[2]
        return s

    def kill(self, st, addr):
        """forget the contents of a local object"""
        r = root(addr)
        if r.k != 'al' or not st.env:
            return
        for k in [k for k in st.env if under(k, addr)]:
            if st.env[k].k != 'ulk':
                del st.env[k]

    # ---------------------------------------------------------------- tracked shared cells
    def cell_held(self, s, c):
        return c[0] == '' or any(l[0].k == 'fld' and l[0].a[2] == c[0] for l in s.locks)

    def cell_get(self, s, a, c, site, ctx):
        """[(value, state)]"""
        key = mk('cell', a.c, c[0])
        held = self.cell_held(s, c)
        v = s.env.get(key) if held else None
        if v is not None and c[1]:
            t = self.truth(s, v)
            if t is not None:
                v = TRUE if t else FALSE
        if v is not None:
            return [(v, s)]
        if c[1]:
            out = []
            for v in (TRUE, FALSE):
                s2 = s.copy()
                if held:
                    s2.env[key] = v
                out.append((v, s2))
            return out
        v = self.leaf(s, mk('ld', a, site=site, ctx=ctx))
        if held:
            s.env[key] = v
        return [(v, s)]

    def cell_set(self, s, a, v):
        c = self.cells(a)
        if c is not None:
            s.env[mk('cell', a.c, c[0])] = v

    # ---------------------------------------------------------------- functions
    def call_fn(self, fn, args, ctx, st):
        self.visited_fns.add(fn.m)
        blocks = fn.load()
        live = liveness(fn)
        phis = [[i for i in b if i['o'] == 'phi'] for b in blocks]
        outs = {}
        seen = set()
        self.active.append(ctx)
        try:
            return self._call_fn(fn, args, ctx, st, blocks, live, phis, outs, seen)
        finally:
            self.active.pop()

    def _call_fn(self, fn, args, ctx, st, blocks, live, phis, outs, seen):
        act = frozenset(self.active)
        outer = frozenset(self.active[:-1])
        work = [(0, 0, {i: a for i, a in enumerate(args)}, st)]

        def out(kind, ret, s):
            # drop what belongs to the callee
            env = s.env
            if any(root(k).ctx == ctx for k in env):
                env = {k: v for k, v in env.items() if root(k).ctx != ctx}
            keep = set(ret.lv) if ret is not None else set()
            facts = s.facts
            if facts:
                for v in env.values():
                    keep |= v.lv
                facts = {f: v for f, v in facts.items()
                         if all(l in keep or l.ctx in outer for l in f.lv)}
            s2 = St(env, facts, s.locks, s.tr)
            k = (kind, ret, s2.key())
            if k not in outs:
                outs[k] = (kind, ret, s2)

        def goto(src, dst, ssa, s):
            new = {}
            lv = live[dst]
            for k in lv:
                if k in ssa:
                    new[k] = ssa[k]
            for ph in phis[dst]:
                for v, pb in ph['v']:
                    if pb == src:
                        t = self.val(v, ssa)
                        if t.d > (MAXDEPTH if dst <= src else 2 * MAXDEPTH):
                            t = mk('x', site=(fn.m, ph['i']), ctx=ctx)
                            self.leaf(s, t)
                        elif t.k == 'bin' and t.lv and any(l.ctx == ctx and l.k == 'ph' for l in t.lv):
                            t = mk('ph', 'loop', site=(fn.m, ph['i']), ctx=ctx)
                            self.leaf(s, t)
                        elif t.k == 'bin' and dst <= src:
                            t = mk('ph', 'loop', site=(fn.m, ph['i']), ctx=ctx)
                            self.leaf(s, t)
                        elif t.k == 'c' and dst <= src and not 0 <= t.a[0] <= self.count:
                            t = mk('ph', 'loop', site=(fn.m, ph['i']), ctx=ctx)
                        new[ph['i']] = t
                        break
            if s.facts:
                keep = set()
                for v in new.values():
                    if isinstance(v, T):
                        keep |= v.lv
                for v in s.env.values():
                    keep |= v.lv
                dead = [f for f in s.facts if any((l.ctx == ctx or l.ctx not in act) and l not in keep for l in f.lv)]
                if dead:
                    s = s.copy()
                    for f in dead:
                        del s.facts[f]
            key = (dst, frozenset(new.items()), s.key())
            if key in seen:
                return
            seen.add(key)
            work.append((dst, 0, new, s))

        while work:
            b, i, ssa, s = work.pop()
            insts = blocks[b]
            s = s.copy()
            n = len(insts)
            while i < n:
                ins = insts[i]
                self.steps += 1
                if self.steps > self.budget:
                    raise Budget('%s: step budget exhausted in %s' % (self.stack[0][1].d if self.stack else fn.d, fn.d))
                o = ins['o']
                if o == 'phi':
                    i += 1
                    continue
                if o == 'load' and self.cells:
                    a = self.val(ins['p'], ssa)
                    c = None if self.local(a) or a.k == 'vs' else self.cells(a)
                    if c is not None:
                        vs = self.cell_get(s, a, c, (fn.m, ins['i']), ctx)
                        for v, s2 in vs[1:]:
                            d = dict(ssa)
                            d[ins['i']] = v
                            self.emit(Ev('load', args=(a,), res=v), s2, fn, ins)
                            work.append((b, i + 1, d, s2))
                        v, s = vs[0]
                        ssa = dict(ssa)
                        ssa[ins['i']] = v
                        self.emit(Ev('load', args=(a,), res=v), s, fn, ins)
                        i += 1
                        continue
                if o == 'call':
                    self.ncalls += 1
                    res = self.do_call(fn, ins, ssa, s, ctx)
                    nxt = []
                    for kind, r, s2 in res:
                        if kind == 'ret':
                            nxt.append((r, s2))
                        elif kind == 'unwind':
                            if 'un' in ins:
                                goto(b, ins['un'], ssa, s2)
                            elif fn.nu and False:
                                out('terminate', None, s2)
                            else:
                                out('unwind', None, s2)
                        else:
                            out(kind, None, s2)
                    if not nxt:
                        break
                    if 'to' in ins:
                        for r, s2 in nxt:
                            d = dict(ssa)
                            if 'i' in ins:
                                d[ins['i']] = r if r is not None else UND
                            goto(b, ins['to'], d, s2)
                        break
                    for r, s2 in nxt[1:]:
                        d = dict(ssa)
                        if 'i' in ins:
                            d[ins['i']] = r if r is not None else UND
                        work.append((b, i + 1, d, s2))
                    r, s = nxt[0]
                    if 'i' in ins:
                        ssa = dict(ssa) if len(nxt) > 1 else ssa
                        ssa[ins['i']] = r if r is not None else UND
                    s = s.copy()
                    i += 1
                    continue
                if o == 'br':
                    if 'c' not in ins:
                        goto(b, ins['t'][0], ssa, s)
                        break
                    c = self.val(ins['c'], ssa)
                    tv = self.truth(s, c)
                    for v, dst in ((True, ins['t'][0]), (False, ins['t'][1])):
                        if tv is None:
                            s2 = self.assume(s, c, v)
                            if s2 is None:
                                continue
                            t = c
                            vv = v
                            while t.k == 'not':
                                t = t.a[0]
                                vv = not vv
                            self.emit(Ev('assume', args=(t,), val=TRUE if vv else FALSE), s2, fn, ins)
                            goto(b, dst, ssa, s2)
                        elif tv == v:
                            goto(b, dst, ssa, s)
                    break
                if o == 'switch':
                    c = self.val(ins['c'], ssa)
                    if c.k == 'c':
                        d = ins['d']
                        for cv, cb in ins['cs']:
                            if cv == c.a[0]:
                                d = cb
                        goto(b, d, ssa, s)
                        break
                    known = s.facts.get(c)
                    if known is not None and known.k == 'c':
                        d = ins['d']
                        for cv, cb in ins['cs']:
                            if cv == known.a[0]:
                                d = cb
                        goto(b, d, ssa, s)
                        break
                    sd = s
                    for cv, cb in ins['cs']:
                        t = cmp_term('eq', c, C(cv))
                        s2 = self.assume(sd, t, True)
                        if s2 is not None:
                            self.emit(Ev('assume', args=(t,), val=TRUE), s2, fn, ins)
                            goto(b, cb, ssa, s2)
                        sd = self.assume(sd, t, False)
                        if sd is None:
                            break
                        self.emit(Ev('assume', args=(t,), val=FALSE), sd, fn, ins)
                    if sd is not None:
                        goto(b, ins['d'], ssa, sd)
                    break
                if o == 'ret':
                    out('ret', self.val(ins['v'], ssa) if 'v' in ins else None, s)
                    break
                if o == 'resume':
                    out('unwind', None, s)
                    break
                if o == 'unreachable':
                    break
                if o == 'sel':
                    c = self.val(ins['c'], ssa)
                    tv = self.truth(s, c)
                    if tv is None:
                        t, n = c, False
                        while t.k == 'not':
                            t, n = t.a[0], not n
                        s2 = self.assume(s, c, False)
                        if s2 is not None:
                            self.emit(Ev('assume', args=(t,), val=TRUE if n else FALSE), s2, fn, ins)
                            d = dict(ssa)
                            d[ins['i']] = self.val(ins['b'], ssa)
                            work.append((b, i + 1, d, s2))
                        s = self.assume(s, c, True)
                        if s is None:
                            break
                        s = s.copy()
                        self.emit(Ev('assume', args=(t,), val=FALSE if n else TRUE), s, fn, ins)
                        ssa = dict(ssa)
                        ssa[ins['i']] = self.val(ins['a'], ssa)
                    else:
                        ssa[ins['i']] = self.val(ins['a' if tv else 'b'], ssa)
                    i += 1
                    continue
                self.step(fn, ins, ssa, s, ctx)
                i += 1
        return list(outs.values())

    # ---------------------------------------------------------------- simple instructions
    def step(self, fn, ins, ssa, s, ctx):
        o = ins['o']
        if o == 'alloca':
            t = mk('al', ins.get('n', ''), ins.get('t', ''), site=(fn.m, ins['i']), ctx=ctx)
            ssa[ins['i']] = t
        elif o == 'gep':
            ssa[ins['i']] = self.gep(fn, ins, ssa)
        elif o == 'load':
            a = self.val(ins['p'], ssa)
            if a.k == 'vs':
                ssa[ins['i']] = mk('vf', *a.a)
                return
            r = s.env.get(a)
            if r is None and ins.get('t') == 'ptr' and a.k in ('al', 'fld') and self.local(a):
                # record with one pointer passed in a register
                if a.k == 'fld' and a.a[2] == '#0' and a.a[0].k == 'al':
                    r = s.env.get(a.a[0])
                elif a.k == 'al':
                    r = s.env.get(mk('fld', a, 'closure', '#0'))
            if r is None and self.local(a) and ins.get('t') in ('{}', 'i64', 'i32', '[2 x i64]'):
                l = []
                while len(l) < 9 and mk('fld', a, 'std::array', str(len(l))) in s.env:
                    l.append(s.env[mk('fld', a, 'std::array', str(len(l)))])
                for c, f in (('closure', ('#0', '#1')), ('std::pair', ('first', 'second'))):
                    if not l and ins['t'] == '{}' and all(mk('fld', a, c, x) in s.env for x in f):
                        l = [s.env[mk('fld', a, c, x)] for x in f]
                if l:
                    r = l[0] if ins['t'][0] == 'i' and len(l) == 1 else mk('agg', *l)
            if r is None and a.k == 'al' and ins.get('t') in REGS:
                # record passed in registers: its parts go with it
                l = self.parts(s, a)
                if ins['t'] != '{}':
                    l = sorted(((k.a[1], k.a[2], v) for k, v in s.env.items() if k.k == 'fld' and k.a[0] is a), key=lambda x: x[:2])
                    if len(l) > 1 and all(not x[1].startswith('#') for x in l):
                        r = mk('parts', *[y for x in l for y in x])
                elif l:
                    r = mk('agg', *l)
            if r is None and a.k == 'fld' and a.a[1] != 'closure' and a.a[2] in self.two(a.a[1]) and self.local(a):
                r = s.env.get(mk('fld', a.a[0], 'closure', '#%d' % self.two(a.a[1]).index(a.a[2])))
                if r is None:
                    r = s.env.get(mk('fld', a.a[0], 'std::array', str(self.two(a.a[1]).index(a.a[2]))))
            if r is None and a.k == 'fld' and a.a[1] == 'std::array' and a.a[2] == '0' and self.local(a) and s.env.get(a.a[0]) is not None and s.env[a.a[0]].k != 'ld':
                r = s.env[a.a[0]]       # the only element, passed in a register
            if r is None and ins.get('t') in ('i64', 'i32', 'i8') and a.k == 'al' and a.a[1].startswith('struct.stlab'):
                # record with one number passed in a register
                l = [v for k, v in s.env.items() if k.k == 'fld' and k.a[0] is a]
                if len(l) == 1 and l[0].k in ('arg', 'ld', 'bin', 'c'):
                    r = l[0]
            if r is None and a.k == 'fld' and a.a[1] == 'std::array':
                r = s.env.get(mk('fld', a.a[0], 'closure', '#' + a.a[2]))   # elements passed in registers
            if r is None and a.k == 'fld' and a.a[1] == 'std::array' and mk('fld', a.a[0], 'std::array', 'zero') in s.env:
                r = C(0)
            if (r is None or r.k in ('ld', 'res', 'x')) and a.k == 'fld' and a.a[1] == 'closure' and ins.get('t') != 'ptr' and any(k.k == 'fld' and k is not a and under(k, a) for k in s.env):
                r = mk('objcopy', a)
            if r is None:
                if a.k == 'g' and ins.get('t') == 'ptr':
                    r = mk('ld', a)
                elif ins.get('t') == 'ptr' and not self.local(a):
                    r = mk('ld', a)
                elif a.k == 'k':
                    r = UND
                else:
                    r = self.leaf(s, mk('ld', a, site=(fn.m, ins['i']), ctx=ctx))
            if ins.get('t') in ('i8',) and r.k == 'ld' and not ins.get('raw'):
                pass
            ssa[ins['i']] = r
            if not self.local(a):
                self.emit(Ev('load', args=(a,), res=r), s, fn, ins)
        elif o == 'store':
            a = self.val(ins['p'], ssa)
            v = self.val(ins['v'], ssa)
            if self.local(a) and v.k == 'agg':
                for j, x in enumerate(v.a):
                    s.env[mk('fld', a, 'std::array', str(j))] = x
            elif self.local(a) and v.k == 'parts':
                for j in range(0, len(v.a), 3):
                    s.env[mk('fld', a, v.a[j], v.a[j + 1])] = v.a[j + 2]
            elif self.local(a) and v.k == 'objcopy':
                self.copyobj(s, a, v.a[0])
            elif self.local(a):
                if a.k == 'al' and a.a[1].startswith('struct.stlab') and v.k in ('arg', 'ld', 'bin', 'c'):
                    tn = tname(a.a[1])
                    fs = self.p.fields.get(tn)
                    if fs and len(fs) == 1:
                        s.env[mk('fld', a, tn, list(fs)[0])] = v
                s.env[a] = v if v.d <= (2 * MAXDEPTH if self.deep and v.k in ('cmp', 'not', 'bool') else MAXDEPTH) else mk('x', site=(fn.m, 'st', ins.get('l', [0, 0])[1]), ctx=ctx)
                # a write through an unknown element or a whole-record store voids the rest
            else:
                if self.cells:
                    self.cell_set(s, a, v)
                self.emit(Ev('store', args=(a,), val=v), s, fn, ins)
        elif o == 'cast':
            v = self.val(ins['v'], ssa)
            if ins['op'] in ('trunc',) and v.k == 'c' and ins.get('t') == 'i1':
                v = C(v.a[0] & 1)
            ssa[ins['i']] = v
        elif o == 'cmp':
            ssa[ins['i']] = cmp_term(ins['p'], self.val(ins['a'], ssa), self.val(ins['b'], ssa))
        elif o == 'bin':
            a = self.val(ins['a'], ssa)
            b = self.val(ins['b'], ssa)
            op = ins['op']
            if op == 'add' and b.k == 'c':
                r = add(a, b.a[0])
            elif op == 'add' and a.k == 'c':
                r = add(b, a.a[0])
            elif op == 'sub' and b.k == 'c':
                r = add(a, -b.a[0])
            elif op == 'xor' and b.k == 'c' and b.a[0] in (1, -1) and a.k in ('bool', 'not', 'cmp', 'ld', 'res', 'c', 'ph', 'x', 'arg') and b.a[0] == 1:
                r = bnot(a)
            elif a.k == 'c' and b.k == 'c' and op in ('mul', 'and', 'or', 'sub', 'shl', 'lshr'):
                x, y = a.a[0], b.a[0]
                r = C({'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'sub': lambda: x - y,
                       'shl': lambda: x << (y & 63), 'lshr': lambda: (x & (2**64 - 1)) >> (y & 63)}[op]())
            else:
                r = mk('bin', op, a, b)
            if r.bd > 3 and r.d > MAXDEPTH or r.d > 24:
                r = self.leaf(s, mk('x', site=(fn.m, ins['i']), ctx=ctx))
            ssa[ins['i']] = r
        elif o == 'tt':
            # static type of a vtable pointer
            v = ins['p']
            t = self.val(v, ssa)
            if isinstance(v, int):
                obj = t.a[0] if t.k == 'ld' else t
                if t.k == 'vt':
                    obj = t.a[0]
                ssa[v] = mk('vt', obj, norm(ins['t']))
            if 'i' in ins:
                ssa[ins['i']] = TRUE
        elif o == 'lend':
            self.kill(s, self.val(ins['p'], ssa))
            a = self.val(ins['p'], ssa)
            s.env.pop(a, None)
        elif o == 'memcpy':
            d = self.val(ins['d'], ssa)
            sr = self.val(ins['s'], ssa)
            if self.local(d):
                cp = {}
                for k, v in s.env.items():
                    if under(k, sr):
                        cp[rebase(k, sr, d)] = v
                s.env.update(cp)
                if not cp:
                    s.env[d] = mk('ld', sr)
            else:
                self.emit(Ev('store', args=(d,), val=mk('ld', sr)), s, fn, ins)
        elif o == 'memset':
            d = self.val(ins['d'], ssa)
            if not self.local(d):
                self.emit(Ev('store', args=(d,), val=self.val(ins['v'], ssa)), s, fn, ins)
            elif self.val(ins['v'], ssa) is C(0):
                s.env[mk('fld', d, 'std::array', 'zero')] = TRUE
        elif o == 'ev':
            v = self.val(ins['v'], ssa)
            if v.k == 'agg':
                r = v.a[ins['x']] if ins['x'] < len(v.a) else UND
            else:
                r = mk('ev', v, ins['x'])
            ssa[ins['i']] = r
        elif o == 'iv':
            b = self.val(ins['b'], ssa)
            l = list(b.a) if b.k == 'agg' else []
            while len(l) <= ins['x']:
                l.append(UND)
            l[ins['x']] = self.val(ins['v'], ssa)
            ssa[ins['i']] = mk('agg', *l)
        elif o == 'lpad':
            t = self.leaf(s, mk('exn', site=(fn.m, ins['i']), ctx=ctx))
            ssa[ins['i']] = t
            self.emit(Ev('lpad', extra=tuple(ins['c'])), s, fn, ins)
        elif o == 'rmw':
            a = self.val(ins['p'], ssa)
            ssa[ins['i']] = self.leaf(s, mk('ld', a, site=(fn.m, ins['i']), ctx=ctx))
            self.emit(Ev('rmw', q=ins['op'], args=(a,), val=self.val(ins['v'], ssa)), s, fn, ins)
        else:
            if 'i' in ins:
                ssa[ins['i']] = self.leaf(s, mk('x', site=(fn.m, ins['i']), ctx=ctx))

    def gep(self, fn, ins, ssa):
        b = self.val(ins['b'], ssa)
        st = ins['s']
        x = ins['x']
        if b.k == 'vt':
            return mk('vs', b.a[0], b.a[1], x[0] if x and isinstance(x[0], int) else -1)
        if st == 'i8' and len(x) == 1:
            if isinstance(x[0], int):
                return b      # base-class adjustment
            return mk('elt', b)
        nm = ins.get('n') or ''
        if nm.startswith('coerce.dive'):
            return b
        if len(x) == 1:
            if x[0] == 0:
                return b
            if self.deep and isinstance(x[0], int) and b.k == 'fld' and b.a[1] == 'std::array' and b.a[2].isdigit() and self.local(b):
                return mk('fld', b.a[0], 'std::array', str(int(b.a[2]) + x[0]))
            return mk('elt', b)
        t = b
        if x[0] != 0:
            t = mk('elt', b)
        if self.deep and st.startswith('[') and x[0] == 0 and len(x) == 2 and isinstance(x[1], int) and b.k == 'fld' and b.a[1] == 'std::array' and self.local(b):
            return mk('fld', b.a[0], 'std::array', str(x[1]))
        for j in x[1:]:
            if not isinstance(j, int):
                t = mk('elt', t)
            elif st.startswith('['):
                t = mk('elt', t)
            elif re.match(r'^(class|struct|union)\.', st) or st == '{}':
                tn = 'closure' if st == '{}' else tname(st)
                f = '#%d' % j
                if tn != 'closure' and nm:
                    f = self.fieldname(tn, nm)
                if '::' not in tn and tn != 'closure' and not self.p.fields.get(tn):
                    pass
                t = mk('fld', t, tn, f)
            else:
                t = mk('elt', t)
            break
        return t

    def fieldname(self, tn, nm):
        fs = self.p.fields.get(tn)
        if fs:
            if nm in fs:
                return nm
            k = nm
            while k and k[-1].isdigit():
                k = k[:-1]
                if k in fs:
                    return k
        k = re.sub(r'\d+$', '', nm)
        return k or nm

    # ---------------------------------------------------------------- calls
    def do_call(self, fn, ins, ssa, s, ctx):
        args = [self.val(a, ssa) for a in ins['a']]
        sret = None
        if 'sret' in ins:
            sret = args.pop(ins['sret'])
        site = (fn.m, ins.get('i', ins.get('l', [0, 0])[1] * 1000 + len(ins['a'])))
        if 'f' not in ins:
            fv = self.val(ins['fv'], ssa)
            if fv.k == 'vf':
                return self.vcall(fn, ins, fv, args, sret, s, ctx, site)
            if fv.k == 'g' and (fv.a[0] in self.p.funcs or fv.a[0] in self.p.decls):
                m = fv.a[0]
            else:
                ev = Ev('icall', q='icall', args=(fv,) + tuple(args))
                r = self.leaf(s, mk('res', 'icall', fv, site=site, ctx=ctx))
                ev.res = r
                self.emit(ev, s, fn, ins)
                if sret is not None and self.local(sret):
                    s.env[sret] = r
                outs = [('ret', r, s)]
                if not ins.get('nu') and self.throws(ev):
                    s2 = s.copy()
                    outs.append(('unwind', None, s2))
                return outs
        else:
            m = ins['f']
        f = self.p.funcs.get(m)
        full = self.p.dem(m)
        q = qname(full)
        p = self.prim(fn, ins, m, q, full, args, sret, s, ctx, site)
        if p is not None:
            return p
        if f is not None and m not in self.stack_set() and len(self.stack) < 60 and self.inline(f, args, s):
            return self.enter(fn, ins, f, args, sret, s, ctx, site)
        return self.opaque(fn, ins, m, q, full, args, sret, s, ctx, site)

    def stack_set(self):
        return {x[0] for x in self.stack}

    def enter(self, fn, ins, f, args, sret, s, ctx, site):
        self.stack.append((f.m, fn, ins.get('l')))
        try:
            full_args = list(args)
            if sret is not None:
                pos = next((i for i, a in enumerate(f.args) if a[1]), 0)
                full_args.insert(pos, sret)
            self.emit(Ev('enter', q=f.q, full=f.d, args=tuple(args), m=f.m), s, f, ins, fn)
            outs = self.call_fn(f, full_args, self.ctx(ctx, f.m, site), s)
            res = []
            for kind, r, s2 in outs:
                if kind == 'ret':
                    s2 = s2.copy()
                    self.emit(Ev('leave', q=f.q, full=f.d, args=tuple(args), res=r, m=f.m), s2, f, ins, fn)
                res.append((kind, r, s2))
        finally:
            self.stack.pop()
        return res

    def opaque(self, fn, ins, m, q, full, args, sret, s, ctx, site, kind=None, kill=True):
        if kind is None:
            kind = 'user' if q.startswith('w::') else 'call'
        ev = Ev(kind, q=q, full=full, args=tuple(args), m=m)
        lim = 14 if last(q) in QUERY and q.startswith('std::') else 5
        rargs = tuple(a for a in args[:3] if a.d < lim)
        r = self.leaf(s, mk('res', q, *rargs, site=site, ctx=ctx))
        ev.res = r
        ev.extra = sret
        self.emit(ev, s, fn, ins)
        outs = []
        if not ins.get('nu') and self.throws(ev):
            s2 = s.copy()
            outs.append(('unwind', None, s2))
        if kill and not NOKILL.search(q) and not re.search(r'\) const( &&?)?( noexcept)?$', full):
            for a in args:
                if a.k in ('al', 'fld'):
                    self.kill(s, a)
        if sret is not None:
            if self.local(sret):
                self.kill(s, sret)
                s.env[sret] = r
        if ins.get('nr'):
            return outs or [('terminate', None, s)]
        outs.insert(0, ('ret', r, s))
        return outs

    def vcall(self, fn, ins, fv, args, sret, s, ctx, site):
        obj, ty, k = fv.a
        tg = self.p.virtual_targets(ty, k)
        name = None
        for t in tg:
            if t != '__cxa_pure_virtual':
                name = last(qname(self.p.dem(t)))
                break
        if name and name.startswith('~'):
            name = '~' + short(tname(ty))
        q = tname(ty) + '::' + (name or 'v%d' % k)
        ev = Ev('vcall', q=q, full=ty + '::' + (name or 'v%d' % k), args=tuple(args), extra=tuple(tg))
        real = [self.p.funcs[t] for t in tg if t in self.p.funcs]
        ev.locks = tuple(l[0] for l in s.locks)
        chosen = self.devirt(ev, real)
        if chosen:
            outs = []
            for t in chosen:
                if t.m in self.stack_set():
                    continue
                outs += self.enter(fn, ins, t, args, sret, s.copy(), ctx, (site, t.m))
            if outs:
                return outs
        r = self.leaf(s, mk('res', q, *[a for a in args[:2] if a.d < 5], site=site, ctx=ctx))
        ev.res = r
        self.emit(ev, s, fn, ins)
        outs = [('ret', r, s)]
        if sret is not None and self.local(sret):
            self.kill(s, sret)
            s.env[sret] = r
        if not ins.get('nu') and self.throws(ev):
            s2 = s.copy()
            outs.append(('unwind', None, s2))
        for a in args:
            if a.k in ('al', 'fld'):
                self.kill(s, a)
        return outs

    # ---------------------------------------------------------------- primitives
    def setobj(self, st, addr, v):
        if self.local(addr):
            st.env[addr] = v

    def copyobj(self, st, dst, src):
        """dst becomes a copy of the object at src (with its known parts)"""
        if not self.local(dst):
            return
        self.kill(st, dst)
        for k, v in list(st.env.items()):
            if k is not src and under(k, src):
                st.env[rebase(k, src, dst)] = v
        v = st.env.get(src)
        st.env[dst] = v if v is not None else mk('ld', src)

    def prim(self, fn, ins, m, q, full, args, sret, s, ctx, site):
        def done(r=None):
            return [('ret', r, s)]

        def event(kind='call', res=None, val=None):
            ev = Ev(kind, q=q, full=full, args=tuple(args), res=res, val=val, m=m)
            ev.extra = sret
            self.emit(ev, s, fn, ins)
            return ev

        if q in IDENT and args:
            return done(args[0])
        if not (q.startswith('std::') or q.startswith('__') or q.startswith('stlab::task_') or q.startswith('llvm') or q.startswith('operator')):
            return None
        if q in ('std::make_shared', 'std::make_unique', 'std::allocate_shared'):
            t = mk('new', re.sub(r'^.*?<', '<', full, count=1)[:80], site=site, ctx=ctx)
            r = self.opaque(fn, ins, m, q, full, args, sret, s, ctx, site)
            for k, _, s2 in r:
                if k == 'ret' and sret is not None and self.local(sret):
                    s2.env[sret] = t
            return r
        if q in ('std::get', 'std::__get_helper', 'std::__get_helper2'):
            mm = re.search(r'(?:get|__get_helper)<(\d+)', full)
            for c, n in (('std::pair', 'first' if mm and mm.group(1) == '0' else 'second'), ('closure', '#' + mm.group(1) if mm else '')):
                if 'std::pair<' in full and mm and self.local(args[0]) and mk('fld', args[0], c, n) in s.env:
                    return done(mk('fld', args[0], c, n))
            return done(mk('fld', args[0], 'tuple', mm.group(1) if mm else '?'))
        if q == 'std::make_pair' and sret is None and len(args) == 2 and all(self.local(a) and a in s.env for a in args):
            event()
            return done(mk('agg', *[s.env[a] for a in args]))
        if q == 'std::tie' and sret is not None and self.local(sret):
            for i, a in enumerate(args):
                s.env[mk('fld', sret, 'tie', str(i))] = a
            event()
            return done()
        if q in ('std::make_tuple', 'std::make_pair') and sret is not None and self.local(sret):
            event()
            self.kill(s, sret)
            pr = q == 'std::make_pair'
            self.setobj(s, sret, self.leaf(s, mk('res', q, site=site, ctx=ctx)))
            for i, a in enumerate(args):
                self.copyobj(s, mk('fld', sret, 'std::pair' if pr else 'tuple', ('first', 'second')[i] if pr else str(i)), a)
                if '&&' in full and self.local(a):
                    for k2 in [k2 for k2 in s.env if k2.k == 'fld' and k2.a[1:] in self.handles and under(k2, a)]:
                        s.env[k2] = NULL
            return done()
        if q == 'std::tuple::operator=' and len(args) == 2:
            ds = [(i, s.env.get(mk('fld', args[0], 'tie', str(i)))) for i in range(9)]
            ds = [(i, d) for i, d in ds if d is not None]
            if ds:
                pr = 'std::pair<' in full[full.rfind('('):]
                mv = [(d, mk('fld', args[1], 'std::pair' if pr else 'tuple', ('first', 'second')[i] if pr else str(i))) for i, d in ds]
                ev = Ev('call', q=q, full=full, args=tuple(args), m=m)
                ev.extra = tuple(mv)
                self.emit(ev, s, fn, ins)
                for d, src in mv:
                    v = s.env.get(src)
                    self.copyobj(s, d, src)
                    if v is None and self.local(d):
                        s.env[d] = self.leaf(s, mk('ld', src, site=site, ctx=ctx))
                return done(args[0])
        if q in ('std::dynamic_pointer_cast', 'std::static_pointer_cast') and sret is not None:
            event()
            self.setobj(s, sret, self.V(s, args[0]))
            if args[0].k != 'g' and full.endswith('&&)'):
                self.setobj(s, args[0], NULL)
            return done(UND)
        if q in ('std::enable_shared_from_this::shared_from_this', 'std::enable_shared_from_this::weak_from_this'):
            if sret is not None:
                self.setobj(s, sret, mk('ptrh', args[0]))
            return done(UND)
        if q == 'std::uncaught_exceptions':
            return done(self.leaf(s, mk('x', site=site, ctx=ctx)))
        if q in ('std::exchange', 'std::swap') and self.cells and len(args) == 2:
            ca = [None if self.local(x) or x.k not in ('fld', 'elt') else self.cells(x) for x in args]
            if q == 'std::exchange':
                ca[1] = None
            if ca[0] is not None or ca[1] is not None:
                sts = [((), s)]
                for x, c in zip(args, ca):
                    n = []
                    for got, s2 in sts:
                        if c is not None:
                            n += [(got + (v,), s3) for v, s3 in self.cell_get(s2, x, c, site, ctx)]
                        elif x.k == 'c':
                            n.append((got + (x,), s2))
                        else:
                            n.append((got + (s2.env.get(x) or mk('ld', x),), s2))
                    sts = n
                out = []
                for (va, vb), s2 in sts:
                    for x, c, old, new in ((args[0], ca[0], va, vb), (args[1], ca[1], vb, va)):
                        if q == 'std::exchange' and x is args[1]:
                            continue
                        if c is not None:
                            self.emit(Ev('load', args=(x,), res=old), s2, fn, ins)
                            s2.env[mk('cell', x.c, c[0])] = new
                            self.emit(Ev('store', args=(x,), val=new), s2, fn, ins)
                        elif self.local(x):
                            s2.env[x] = new
                        else:
                            self.emit(Ev('store', args=(x,), val=new), s2, fn, ins)
                    if sret is not None:
                        self.setobj(s2, sret, va)
                    out.append(('ret', va, s2))
                return out
        if q == 'std::exchange':
            a = args[0]
            old = s.env.get(a) or self.leaf(s, mk('ld', a, site=site, ctx=ctx))
            nv = args[1]
            if nv.k == 'al' and nv in s.env:
                nv = s.env[nv]
            if not self.local(a):
                ev = Ev('load', args=(a,), res=old)
                self.emit(ev, s, fn, ins)
                ev = Ev('store', args=(a,), val=nv)
                self.emit(ev, s, fn, ins)
            else:
                self.kill(s, a)
                s.env[a] = nv
            if sret is not None:
                self.setobj(s, sret, old)
            event(res=old)
            return done(old)
        if q == 'std::swap' and len(args) == 2:
            event()
            a, b = args
            va, vb = s.env.get(a) or mk('ld', a), s.env.get(b) or mk('ld', b)
            sub = [(k, v, k is not a and under(k, a)) for k, v in s.env.items()
                   if k is not a and under(k, a) or k is not b and under(k, b)]
            if sub and self.local(a) and self.local(b) and all(v.k != 'ulk' for _, v, _ in sub):
                for k, _, _ in sub:
                    del s.env[k]
                for k, v, ina in sub:
                    s.env[rebase(k, a, b) if ina else rebase(k, b, a)] = v
            self.setobj(s, a, vb)
            self.setobj(s, b, va)
            return done()
        if q in ('__cxa_begin_catch',):
            self.emit(Ev('catch', q=q, args=tuple(args)), s, fn, ins)
            return done(mk('res', 'caught', args[0]))
        if q in ('__cxa_end_catch',):
            self.emit(Ev('endcatch', q=q, args=tuple(args)), s, fn, ins)
            return done()
        if q in ('__cxa_throw', '__cxa_rethrow', 'std::rethrow_exception'):
            self.emit(Ev('throw', q=q, full=full, args=tuple(args)), s, fn, ins)
            return [('unwind', None, s)]
        if q in ('__clang_call_terminate', 'std::terminate', 'abort', 'std::abort'):
            self.emit(Ev('terminate', q=q), s, fn, ins)
            return [('terminate', None, s)]
        if q == 'std::current_exception':
            r = mk('res', 'current_exception', site=site, ctx=ctx)
            self.leaf(s, r)
            if sret is not None:
                self.setobj(s, sret, r)
            event(res=r)
            return done(r)

        sc = scope(q)
        ln = last(q)
        csc = short(sc)
        ctor = ln == csc or (sc.startswith('std::') and ln == csc)
        # ---- locks
        if sc in LOCKC:
            return self.lockobj(fn, ins, q, full, sc, ln, args, sret, s, ctx, site, ctor)
        if sc in ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::timed_mutex', 'std::__mutex_base'):
            if ln in ('lock', 'lock_shared'):
                self.lock(fn, ins, args[0], 'm', s)
                return done()
            if ln in ('unlock', 'unlock_shared'):
                self.unlock(fn, ins, args[0], s)
                return done()
            if ln == 'try_lock':
                s2 = s.copy()
                self.lock(fn, ins, args[0], 'try', s)
                return [('ret', TRUE, s), ('ret', FALSE, s2)]
        if sc in ('std::condition_variable', 'std::condition_variable_any', 'std::_V2::condition_variable_any'):
            if ln in ('notify_one', 'notify_all'):
                event('notify')
                return done()
            if ln in ('wait', 'wait_until', 'wait_for', '__wait_until_impl', '__wait_for_impl'):
                if m in self.p.funcs:
                    return None        # predicate form: its body is a loop over the plain form
                lk = args[1] if len(args) > 1 else None
                lv = s.env.get(lk) if lk is not None else None
                mx = lv.a[0] if lv is not None and lv.k == 'ulk' else None
                self.emit(Ev('cvwait', q=q, full=full, args=tuple(args), val=mx), s, fn, ins)
                if mx is not None:
                    self.emit(Ev('cvunlock', q=q, args=(mx,)), s, fn, ins)
                r = self.leaf(s, mk('res', q, site=site, ctx=ctx))
                return done(r)
            event()
            return done()
        # ---- atomics
        if ATOM.match(sc):
            return self.atomic(fn, ins, q, full, sc, ln, args, sret, s, ctx, site, ctor)
        # ---- smart pointers
        if sc in SMART:
            this = args[0] if args else None
            if this is not None and this.k == 'fld':
                self.handles.add(this.a[1:])
            if ln in ('get', 'operator->', 'operator*', '_M_get', '_M_ptr'):
                v = self.V(s, this)
                if not self.local(this):
                    event()
                return done(deref(v))
            if ln in ('operator bool',):
                v = self.V(s, this)
                if not self.local(this):
                    event()
                if not self.local(this) and v.k == 'ld':
                    v = self.leaf(s, mk('ld', this, site=site, ctx=ctx))
                return done(mk('bool', v))
            if ln == 'lock':
                v0 = self.V(s, this)
                v = NULL if v0 is NULL else mk('lk', v0, site=site, ctx=ctx)
                self.leaf(s, v)
                if sret is not None:
                    self.setobj(s, sret, v)
                event(res=v)
                return done(v)
            if ctor:
                if len(args) == 1 or args[1] is NULL or 'nullptr_t' in full:
                    self.setobj(s, this, NULL)
                elif re.search(r'::(shared_ptr|__shared_ptr|weak_ptr|__weak_ptr|unique_ptr)(<.*>)?\((.*(shared_ptr|weak_ptr|unique_ptr)<.*(&&|const&|&)).*\)$', full):
                    self.setobj(s, this, self.V(s, args[1]))
                    if full.endswith('&&)'):
                        self.setobj(s, args[1], NULL)
                else:
                    self.setobj(s, this, mk('ptrh', args[1]))
                event()
                return done()
            if ln == 'operator=':
                v = NULL if args[1] is NULL else self.V(s, args[1])
                event(val=v)
                self.setobj(s, this, v)
                if full.endswith('&&)') and args[1] is not NULL:
                    self.setobj(s, args[1], NULL)
                return done(this)
            if ln == 'reset':
                v = NULL if len(args) == 1 or args[1] is NULL else mk('ptrh', args[1])
                event(val=v)
                self.setobj(s, this, v)
                return done()
            if ln == 'release':
                r = deref(self.V(s, this))
                event(res=r)
                self.setobj(s, this, NULL)
                return done(r)
            if ln == 'swap':
                va, vb = self.V(s, args[0]), self.V(s, args[1])
                event()
                self.setobj(s, args[0], vb)
                self.setobj(s, args[1], va)
                return done()
            if ln.startswith('~'):
                event('dtor')
                return done()
            if ln in ('use_count', 'unique', 'expired', 'owner_before') and this is not None:
                v = self.V(s, this)
                r = self.leaf(s, mk('res', 'std::' + ln, this, v, site=site, ctx=ctx))
                event(res=r)
                return done(mk('bool', r) if ln in ('unique', 'expired') else r)
            return self.opaque(fn, ins, m, q, full, args, sret, s, ctx, site, kill=False)
        # ---- callables
        if sc in ('std::function', 'stlab::task_'):
            if ln == 'operator()':
                return self.opaque(fn, ins, m, q, full, args, sret, s, ctx, site, kind='user')
            if ln == 'operator bool':
                v = self.V(s, args[0])
                if not self.local(args[0]) and v.k == 'ld':
                    v = self.leaf(s, mk('ld', args[0], site=site, ctx=ctx))
                event()
                return done(mk('bool', v))
            if sc == 'stlab::task_' and not (ctor or ln.startswith('~') or ln in ('operator=', 'swap')):
                if m in self.p.funcs:
                    return None
        if sc == 'std::optional':
            this = args[0]
            if ln in ('operator*', 'operator->', 'value', '_M_get'):
                return done(mk('fld', this, 'std::optional', '*'))
            if ln in ('has_value', 'operator bool', '_M_is_engaged'):
                v = s.env.get(mk('fld', this, 'std::optional', 'has'))
                if v is not None:
                    return done(v)
                a = mk('fld', this, 'std::optional', 'has')
                r = mk('ld', a, site=None if self.local(this) else site, ctx=None if self.local(this) else ctx)
                self.leaf(s, r)
                event(res=r)
                return done(mk('bool', r))
            if (ctor or ln == 'operator=') and len(args) == 2 and self.local(this):
                mm = paramtype(full)
                if mm and not mm.startswith(('std::optional<', 'std::nullopt_t')):
                    v = s.env.get(args[1]) or mk('ld', args[1])
                    event(val=v)
                    self.kill(s, this)
                    s.env[mk('fld', this, 'std::optional', 'has')] = TRUE
                    self.copyobj(s, mk('fld', this, 'std::optional', '*'), args[1])
                    return done(this)
            if ln in ('emplace',):
                event()
                if self.local(this):
                    self.kill(s, this)
                    s.env[mk('fld', this, 'std::optional', 'has')] = TRUE
                return done(mk('fld', this, 'std::optional', '*'))
            if ln == 'reset' or (ctor and (len(args) == 1 or 'nullopt_t' in full)):
                event()
                if self.local(this):
                    self.kill(s, this)
                    s.env[mk('fld', this, 'std::optional', 'has')] = FALSE
                return done()
        if sc == 'std::array' and ln == 'size':
            mm = re.search(r'std::array<.*?, (\d+)u?l?>::size', full)
            if mm:
                event(res=C(int(mm.group(1))))
                return done(C(int(mm.group(1))))
        if self.deep and sc == 'std::array' and ln in ('begin', 'cbegin', 'data', 'end', 'cend') and len(args) == 1 and self.local(args[0]):
            mm = re.search(r'std::array<.*?, (\d+)u?l?>::', full)
            if mm:
                event()
                return done(mk('fld', args[0], 'std::array', mm.group(1) if ln in ('end', 'cend') else '0'))
        if self.deep and sc == 'std::array' and ln in ('operator[]', 'at') and len(args) == 2 and args[1].k == 'c' and self.local(args[0]):
            event()
            return done(mk('fld', args[0], 'std::array', str(args[1].a[0])))
        if sc in CONT:
            if ln in ELT_M:
                event()
                return done(mk('elt', args[0]))
            if ln in IT_M:
                event()
                r = mk('it', args[0])
                if sret is not None:
                    self.setobj(s, sret, r)
                return done(r)
            if ln in ('emplace_back', 'emplace_front') :
                event()
                return done(mk('elt', args[0]))
            if ln in ('size', 'empty', 'capacity', 'max_size'):
                r = self.leaf(s, mk('res', 'std::' + ln, args[0], site=site, ctx=ctx))
                event(res=r)
                return done(r if ln != 'empty' else mk('bool', r))
        if sc in ITERS:
            this = args[0]
            if ln in ('operator*', 'operator->', 'operator[]'):
                v = self.V(s, this)
                return done(mk('elt', v.a[0]) if v.k == 'it' else mk('elt', v))
            if ln in ('operator++', 'operator--', 'operator+=', 'operator-='):
                event()
                r = self.V(s, this)
                if len(args) == 1:
                    return done(this)
                if sret is not None:
                    self.setobj(s, sret, r)
                return done(r)
            if ln == 'base':
                return done(this)
            if ln in ('operator+', 'operator-') and sret is None:
                return done(self.V(s, this))
        if sc == 'std::__exception_ptr::exception_ptr':
            if ln == 'operator bool':
                v = self.V(s, args[0])
                if not self.local(args[0]) and v.k == 'ld' and not self.stable(args[0]):
                    v = self.leaf(s, mk('ld', args[0], site=site, ctx=ctx))
                event()
                return done(mk('bool', v))
        if q == 'std::make_exception_ptr':
            r = mk('new', 'exception', site=site, ctx=ctx)
            if sret is not None:
                self.setobj(s, sret, r)
            event(res=r)
            return done(r)
        if ln in ('operator==', 'operator!=') and len(args) == 2 and re.search(r'\((std::__exception_ptr::exception_ptr|std::function<|std::(shared_ptr|unique_ptr)<|std::nullptr_t|decltype\(nullptr\))', full):
            vs = []
            for a in args:
                if a is NULL or 'nullptr_t' in full[full.rfind('(' if a is args[0] else ','):] and a is UND:
                    vs.append(NULL)
                    continue
                v = self.V(s, a)
                if not self.local(a) and v.k == 'ld' and not self.stable(a):
                    v = self.leaf(s, mk('ld', a, site=site, ctx=ctx))
                vs.append(v)
            event()
            r = None
            if vs[0] is NULL or vs[1] is NULL:
                o = vs[1] if vs[0] is NULL else vs[0]
                r = TRUE if o is NULL else bnot(mk('bool', o))
            elif vs[0] is vs[1] and vs[0].site is None:
                r = TRUE
            if r is not None:
                return done(r if ln == 'operator==' else bnot(r))
            r = self.leaf(s, mk('res', 'std::operator==', args[0], args[1], site=site, ctx=ctx))
            return done(mk('bool', r) if ln == 'operator==' else bnot(mk('bool', r)))
        # ---- generic value classes: construction, assignment and destruction
        if sc in VALCLS:
            this = args[0] if args else None
            if ctor:
                event()
                if len(args) == 1:
                    self.kill(s, this)
                    self.setobj(s, this, NULL if sc in ('std::function', 'stlab::task_', 'std::__exception_ptr::exception_ptr') else mk('empty', sc))
                elif len(args) == 2 and args[1].k in ('al', 'fld', 'arg', 'elt', 'd', 'ld', 'clo'):
                    self.copyobj(s, this, args[1])
                    if sc in ('std::function', 'stlab::task_'):
                        if self.local(this) and self.is_closure_ctor(full, sc):
                            s.env[this] = mk('clo', args[1].c, site=None)
                        elif self.local(this) and not self.local(args[1]) and args[1] not in s.env:
                            s.env[this] = self.leaf(s, mk('ld', args[1], site=site, ctx=ctx))
                        if '&&' in full[full.rfind('('):] and args[1] is not this and not self.is_closure_ctor(full, sc):
                            self.setobj(s, args[1], NULL)
                elif len(args) == 2 and args[1] is NULL:
                    self.setobj(s, this, NULL)
                elif sc in ('std::pair', 'std::tuple') and self.local(this):
                    names = ('first', 'second') if sc == 'std::pair' else tuple(str(i) for i in range(9))
                    ag = args[1:]
                    if any('piecewise' in full for _ in (0,)):
                        ag = []
                    for nme, a in zip(names, ag):
                        t = mk('fld', this, sc if sc == 'std::pair' else 'tuple', nme)
                        self.copyobj(s, t, a)
                        if '&&' in full and self.local(a):
                            for k2 in [k2 for k2 in s.env if k2.k == 'fld' and k2.a[1:] in self.handles and under(k2, a)]:
                                s.env[k2] = NULL
                return done()
            if ln == 'operator=' and len(args) == 2:
                v = NULL if args[1] is NULL else (s.env.get(args[1]) or mk('ld', args[1]))
                event(val=v)
                if self.local(this):
                    self.copyobj(s, this, args[1]) if args[1] is not NULL else self.setobj(s, this, NULL)
                return done(this)
            if ln.startswith('~'):
                event('dtor')
                return done()
            if ln == 'swap' and len(args) == 2:
                event()
                va, vb = self.V(s, args[0]), self.V(s, args[1])
                self.setobj(s, args[0], vb)
                self.setobj(s, args[1], va)
                return done()
        if ln.startswith('~') or q.startswith('operator delete'):
            event('dtor')
            return done()
        return None

    def is_closure_ctor(self, full, sc):
        """whether a constructor of a callable wraps a function object (and does not copy or move another callable)"""
        i = full.rfind('(')
        n = full[i + 1:].lstrip()
        return not (n.startswith(sc + '<') or n.startswith(sc + ' ') or n.startswith(sc + '&'))

    def lock(self, fn, ins, mx, mode, s, obj=None):
        mx = mx.c
        self.emit(Ev('lock', q=mode, args=(mx,)), s, fn, ins)
        s.locks = s.locks + ((mx, mode),)

    def unlock(self, fn, ins, mx, s):
        mx = mx.c
        l = list(s.locks)
        for i in range(len(l) - 1, -1, -1):
            if l[i][0] is mx:
                del l[i]
                break
        s.locks = tuple(l)
        self.emit(Ev('unlock', args=(mx,)), s, fn, ins)
        if self.cells and mx.k == 'fld':
            for k in [k for k in s.env if k.k == 'cell' and k.a[1] == mx.a[2]]:
                del s.env[k]

    def lockobj(self, fn, ins, q, full, sc, ln, args, sret, s, ctx, site, ctor):
        this = args[0]
        cur = s.env.get(this)

        def setl(st, mx, owned):
            st.env[this] = mk('ulk', mx, owned)
            for k in list(st.env):
                if k is not this and under(k, this):
                    del st.env[k]

        if ctor:
            if len(args) == 1:
                s.env[this] = mk('ulk', NULL, 0)
                return [('ret', None, s)]
            if re.search(r'_lock(<[^()]*>)?\(std::(unique_lock|shared_lock)<', full) and '&&' in full:
                src = s.env.get(args[1])
                if src is not None:
                    s.env[this] = src
                    s.env[args[1]] = mk('ulk', NULL, 0)
                return [('ret', None, s)]
            if 'try_to_lock' in full:
                s2 = s.copy()
                self.lock(fn, ins, args[1], 'try', s)
                setl(s, args[1].c, 1)
                setl(s2, args[1].c, 0)
                return [('ret', None, s), ('ret', None, s2)]
            if 'defer_lock' in full:
                setl(s, args[1].c, 0)
                return [('ret', None, s)]
            if 'adopt_lock' in full:
                setl(s, args[1].c, 1)
                return [('ret', None, s)]
            if sc == 'std::scoped_lock':
                for a in args[1:]:
                    self.lock(fn, ins, a, 'm', s)
                s.env[this] = mk('ulk', *[a.c for a in args[1:]], 1)
                return [('ret', None, s)]
            self.lock(fn, ins, args[1], 'm', s)
            setl(s, args[1].c, 1)
            return [('ret', None, s)]
        if ln.startswith('~'):
            if cur is not None and cur.k == 'ulk' and cur.a[-1] == 1:
                for mx in reversed(cur.a[:-1]):
                    self.unlock(fn, ins, mx, s)
            elif cur is None:
                self.emit(Ev('unknownlock', q=q, args=(this,)), s, fn, ins)
            s.env.pop(this, None)
            return [('ret', None, s)]
        if ln == 'lock':
            if cur is not None:
                self.lock(fn, ins, cur.a[0], 'm', s)
                setl(s, cur.a[0], 1)
            return [('ret', None, s)]
        if ln == 'try_lock':
            if cur is not None:
                s2 = s.copy()
                self.lock(fn, ins, cur.a[0], 'try', s)
                setl(s, cur.a[0], 1)
                return [('ret', TRUE, s), ('ret', FALSE, s2)]
        if ln == 'unlock':
            if cur is not None:
                setl(s, cur.a[0], 0)
                self.unlock(fn, ins, cur.a[0], s)
            return [('ret', None, s)]
        if ln in ('owns_lock', 'operator bool'):
            if cur is not None:
                return [('ret', C(cur.a[-1]), s)]
            return [('ret', self.leaf(s, mk('res', q, site=site, ctx=ctx)), s)]
        if ln == 'operator=':
            src = s.env.get(args[1])
            if cur is not None and cur.k == 'ulk' and cur.a[-1] == 1:
                self.unlock(fn, ins, cur.a[0], s)
            if src is not None:
                s.env[this] = src
                s.env[args[1]] = mk('ulk', NULL, 0)
            return [('ret', this, s)]
        if ln in ('mutex', 'release'):
            r = cur.a[0] if cur is not None else UND
            if ln == 'release':
                s.env[this] = mk('ulk', NULL, 0)
            return [('ret', r, s)]
        return [('ret', UND, s)]

    def atomic(self, fn, ins, q, full, sc, ln, args, sret, s, ctx, site, ctor):
        a = args[0]

        def ev(kind, **k):
            e = Ev(kind, q='atomic', full=full, **k)
            if 'memory_order' in full and len(args) > 1 and args[-1].k == 'c':
                e.mo = args[-1].a[0]
            self.emit(e, s, fn, ins)

        if ctor:
            if not self.local(a):
                ev('store', args=(a,), val=args[1] if len(args) > 1 else C(0), extra='init')
            return [('ret', None, s)]
        c = self.cells(a) if self.cells and not self.local(a) else None
        if c is not None and not getattr(self, '_incell', False):
            out = []
            for v, s2 in self.cell_get(s, a, c, site, ctx):
                self._incell = v
                try:
                    for k, r, s3 in self.atomic(fn, ins, q, full, sc, ln, args, sret, s2, ctx, site, ctor):
                        out.append((k, r, s3))
                finally:
                    self._incell = False
            return out
        t = self._incell if c is not None else self.leaf(s, mk('ld', a, site=site, ctx=ctx))
        if c is not None:
            ev0 = ev

            def ev(kind, **k):
                if kind in ('store', 'rmw') and k.get('val') is not None:
                    s.env[mk('cell', a.c, c[0])] = k['val']
                ev0(kind, **k)
        if ln.startswith('operator ') or ln in ('load', 'test'):
            ev('load', args=(a,), res=t)
            return [('ret', t, s)]
        if ln in ('store', 'operator='):
            ev('store', args=(a,), val=args[1])
            return [('ret', args[1], s)]
        if ln in ('clear',):
            ev('store', args=(a,), val=FALSE)
            return [('ret', None, s)]
        if ln in ('exchange', 'test_and_set'):
            ev('rmw', args=(a,), res=t, val=args[1] if ln == 'exchange' else TRUE, extra='xchg')
            return [('ret', t, s)]
        if ln in ('operator++', 'operator--'):
            d = 1 if ln == 'operator++' else -1
            ev('rmw', args=(a,), res=t, val=add(t, d), extra=d)
            post = len(args) > 1
            return [('ret', t if post else add(t, d), s)]
        if ln in ('operator+=', 'operator-=', 'fetch_add', 'fetch_sub'):
            neg = ln in ('operator-=', 'fetch_sub')
            x = args[1]
            d = (-x.a[0] if neg else x.a[0]) if x.k == 'c' else None
            nv = add(t, d) if d is not None else mk('bin', 'sub' if neg else 'add', t, x)
            ev('rmw', args=(a,), res=t, val=nv, extra=d)
            return [('ret', t if ln.startswith('fetch') else nv, s)]
        if ln.startswith('compare_exchange'):
            # success: value was the expected one
            exp = args[1]
            e = s.env.get(exp)
            s2 = s.copy()
            e2 = Ev('rmw', q='atomic', full=full, args=(a,), res=e or UND, val=args[2], extra='cas')
            self.emit(e2, s, fn, ins)
            e3 = Ev('load', q='atomic', full=full, args=(a,), res=t)
            self.emit(e3, s2, fn, ins)
            if self.local(exp):
                s2.env[exp] = t
            return [('ret', TRUE, s), ('ret', FALSE, s2)]
        ev('rmw', args=(a,), res=t)
        return [('ret', t, s)]


def deref(v):
    if v.k == 'ptrh':
        return v.a[0]
    if v is NULL:
        return NULL
    return mk('d', v)


def under(k, a):
    """address k denotes a part of the object at a (or a itself)"""
    while True:
        if k is a:
            return True
        if k.k in ('fld', 'elt'):
            k = k.a[0]
        else:
            return False


def rebase(k, src, dst):
    if k is src:
        return dst
    return mk(k.k, rebase(k.a[0], src, dst), *k.a[1:])


NOKILL = re.compile(r'(operator(==|!=|<|>|<=|>=|<=>|-|\+)|std::(distance|min|max|size|empty|begin|end|is_eq|tuple_size\w*))$')
THROWERS = re.compile(r'^std::(function::operator\(\)|rethrow_exception|rethrow_if_nested)')


REGS = ('{}', 'i16', 'i24', 'i32', 'i48', 'i64')


def default_throws(ev):
    if ev.kind in ('user', 'vcall', 'icall'):
        return True
    return False
