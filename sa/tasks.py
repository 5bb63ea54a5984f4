"""Lifetimes of the callables in a task: abstract interpretation of the programs in w_tasks.cpp with the dispatch
pointers of the tasks propagated as constants, so that a call through them is a call of the function they hold."""
import re

import common
from absint import C, Ev, FALSE, Interp, NULL, TRUE, mk, root, show
from names import last, qname, scope, tname

FIRST = set()    # (class, field) of the fields at the start of their class
MARK = {'next', 'calls', 'truth', 'same', 'points', 'type'}


def norm(t):
    """an object at the start of another one has its address"""
    while t.k in ('ptrh', 'd'):
        t = t.a[0]
    while t.k == 'elt' or t.k == 'fld' and t.a[1] != 'stlab::task_' and (
            t.a[2] in ('0', '#0', '_M_elems') or (t.a[1], t.a[2]) in FIRST):
        t = t.a[0]
    return t


def targ(full):
    """the template argument of a marker"""
    m = re.search(r'w::\w+<(.*)>\(', full)
    return m.group(1) if m else '?'


def cls(full):
    """class of a constructor, destructor or operator()"""
    f = re.sub(r'\(.*', '', full)
    m = re.match(r'(?:.* )?(w::(?:\w+<.*?>|\w+))::', f)
    return m.group(1) if m else None


class TaskInterp(Interp):
    def prim(self, fn, ins, m, q, full, args, sret, s, ctx, site):
        if q in ('std::swap', 'std::exchange') and m in self.p.funcs:
            return None
        if q.startswith('stlab::task_::') or re.match(r'stlab::(swap|operator[=!]=)$', q):
            return None
        ln = last(q)
        if q == 'std::make_unique':
            n = mk('new', 'callable', site=site, ctx=ctx)
            c = re.search(r'make_unique<(w::\w+(?:<.*?>)?|[^,]*?)[,>]', full)
            ev = Ev('user', q='w::make_unique', full=c.group(1) if c else full, args=(n,) + tuple(args), m=m)
            outs = [('unwind', None, s.copy())] if not ins.get('nu') else []
            self.emit(ev, s, fn, ins)
            if 'make_unique<std::function<' in full and re.search(r'>\(std::function<.*>&&\)$', full):
                s.env[args[0]] = NULL
            s.env[sret] = n
            return [('ret', None, s)] + outs
        if q == 'std::function::operator bool':
            v = s.env.get(args[0])
            return [('ret', FALSE if v is NULL else mk('bool', args[0]), s)]
        if q in ('std::function::function', 'std::function::operator=') and len(args) == 2 and re.search(r'function<[^()]*\(.*\)>(&&| const&)\)', full):
            if full.rstrip(')').endswith('&&'):
                s.env[args[1]] = NULL
            return [('ret', args[0], s)]
        if q == 'std::unique_ptr::~unique_ptr':
            v = s.env.get(args[0])
            if v is not None and v.k == 'new':
                self.emit(Ev('user', q='w::delete', full='', args=(v,), m=m), s, fn, ins)
            elif v is None or v is not NULL:
                self.emit(Ev('user', q='w::delete', full='?', args=(args[0],), m=m), s, fn, ins)
            return [('ret', None, s)]
        if q == 'std::unique_ptr::unique_ptr' and len(args) == 2 and '&&' in full:
            v = s.env.get(args[1])
            if v is not None:
                s.env[args[0]] = v
                s.env[args[1]] = NULL
            else:
                s.env.pop(args[0], None)
            return [('ret', None, s)]
        if q in ('std::unique_ptr::release', 'std::unique_ptr::get', 'std::unique_ptr::operator->', 'std::unique_ptr::operator*'):
            v = s.env.get(args[0]) or mk('ld', args[0])
            if ln == 'release':
                s.env[args[0]] = NULL
            return [('ret', v, s)]
        if q == 'std::unique_ptr::operator bool':
            v = s.env.get(args[0])
            return [('ret', TRUE if v is not None and v.k == 'new' else FALSE if v is NULL else mk('bool', v or mk('ld', args[0])), s)]
        if q == 'std::type_info::operator==' or q == 'std::type_info::operator!=':
            a, b = (self.typeinfo(x, s) for x in args)
            if a.k == 'g' and b.k == 'g':
                return [('ret', TRUE if (a is b) == (ln == 'operator==') else FALSE, s)]
        return Interp.prim(self, fn, ins, m, q, full, args, sret, s, ctx, site)

    def opaque(self, fn, ins, m, q, full, args, sret, s, ctx, site, kind=None, kill=True):
        tr = s.tr
        outs = Interp.opaque(self, fn, ins, m, q, full, args, sret, s, ctx, site, kind, kill)
        for k, r, s2 in outs:
            if k == 'unwind':
                s2.tr = tr          # what is made by a call that throws does not live
                if last(q) == 'operator()' and q.startswith('w::'):
                    d = dict(tr[0]) if tr else {}
                    d['escapes'] = cls(full)
                    s2.tr = (frozenset(d.items()),)
        return outs

    def typeinfo(self, t, s):
        return t

    def slot(self, t):
        """the function in a constant table"""
        if t.k == 'tab' or t.k == 'g':
            tb = self.p.tables.get(t.a[0])
            k = t.a[1] if t.k == 'tab' else 0
            if tb and k < len(tb) and tb[k]:
                return mk('g', tb[k])
        if t.k == 'fld' and t.a[0].k == 'g' and t.a[1] == 'global':
            tb = self.p.tables.get(t.a[0].a[0])
            k = int(t.a[2]) // 8
            if tb and k < len(tb) and tb[k]:
                return mk('g', tb[k])
        return None

    def step(self, fn, ins, ssa, s, ctx):
        if ins['o'] == 'load':
            f = self.slot(self.val(ins['p'], ssa))
            if f is not None:
                ssa[ins['i']] = f
                return
        if ins['o'] == 'cmp' and ins['p'] in ('eq', 'ne'):
            a, b = self.val(ins['a'], ssa), self.val(ins['b'], ssa)
            if a is not b and all(x.k in ('al', 'arg', 'new', 'fld', 'g') and root(x).k in ('al', 'arg', 'new', 'g') for x in (a, b)):
                ssa[ins['i']] = FALSE if ins['p'] == 'eq' else TRUE
                return
        return Interp.step(self, fn, ins, ssa, s, ctx)

    def gep(self, fn, ins, ssa):
        b = self.val(ins['b'], ssa)
        x = ins['x']
        if b.k == 'g' and b.a[0] in self.p.tables and len(x) == 2 and x[0] == 0 and isinstance(x[1], int):
            return mk('tab', b.a[0], x[1])
        return Interp.gep(self, fn, ins, ssa)

def inslot(t):
    """inside the storage of a task"""
    while t.k in ('fld', 'elt'):
        if t.k == 'fld' and t.a[1] == 'stlab::task_':
            return True
        t = t.a[0]
    return False


def capacity(p):
    """size and alignment of the storage in a task, from the layout"""
    best = None
    for n, t in p.types.items():
        if not re.match(r'stlab::task_<', n) or '>::' in n or not t.get('z'):
            continue
        for f in t['f']:
            if f[2] >= 0 and re.search(r'array<unsigned char|array<std::byte|\[\d*\]|aligned_storage|storage', f[1]):
                nxt = min([g[2] for g in t['f'] if g[2] > f[2]] + [t['z']])
                off = f[2] // 8
                al = max(f[4] // 8 if len(f) > 4 else 1, min(8, off & -off if off else 8))
                c = ((nxt - f[2]) // 8, al)
                best = c if best is None else (min(best[0], c[0]), min(best[1], c[1]))
    return best


class Watch:
    def __init__(self, f, it):
        self.f, self.it = f, it
        self.bad = {}
        self.n = 0
        self.ok = set()

    def find(self, rule, key, msg, ev):
        self.bad.setdefault((rule, key), (msg, ev.where() if ev is not None else '', common.trail(ev) if ev is not None and hasattr(common, 'trail') else []))

    def live(self, d, a):
        return d.get(norm(a))

    def make(self, d, a, c, src, ev, how):
        m = re.match(r'w::sz<(\d+)ul?, (\d+)ul?>', c or '')
        if m and inslot(a) and self.cap:
            size, al = self.cap
            self.ok.add(('fit', c))
            if int(m.group(1)) > size:
                self.find('fit', 'size', 'a callable of %s bytes is stored in a task that has room for %d' % (m.group(1), size), ev)
            if int(m.group(2)) > al:
                self.find('fit', 'alignment', 'a callable with alignment %s is stored in a task at alignment %d' % (m.group(2), al), ev)
        a = norm(a)
        if a in d and d[a] is not None:
            self.find('construct', show(a), 'a %s is constructed over one that lives (%s)' % (c, d[a][0]), ev)
        lab = 'fresh'
        if src is not None and '(' not in c and c.startswith('w::'):
            src = norm(src)
            if src.k == 'arg' or root(src).k == 'arg':
                lab = c
            elif src in d:
                lab = d[src][1]
                if how == 'move':
                    d[src] = (d[src][0], 'moved')
            else:
                self.find('construct', show(src), 'a %s is made from an object that is not alive' % c, ev)
        d[a] = (c, lab)

    def drop(self, d, a, c, ev):
        a = norm(a)
        if a.k == 'arg':
            return
        x = d.pop(a, None)
        if x is None:
            self.find('destroy', '%s %s' % (c, show(a)), 'a %s is destroyed where none lives' % c, ev)
        elif c and x[0] != c:
            self.find('destroy', '%s %s' % (c, show(a)), 'a %s is destroyed as a %s' % (x[0], c), ev)

    def __call__(self, ev, st):
        d = dict(st.tr[0]) if st.tr else {}
        if self.event(ev, st, d):
            st.tr = (frozenset(d.items()),)

    def event(self, ev, st, d):
        k, q, a = ev.kind, ev.q, ev.args
        if k == 'icall':
            self.find('dispatch', 'icall', 'a call through a dispatch pointer that does not hold a known function (%s)' % show(a[0]), ev)
            return False
        if k == 'throw' and d.get('next') == 'void':
            d['next'] = 'thrown'
            if not any('bad_function_call' in show(x) for x in a):
                self.find('empty', 'exception', 'the call of an empty task throws something else than bad_function_call', ev)
            return True
        if k == 'throw' and isinstance(d.get('next'), str) and d['next'] != 'thrown' and any('bad_function_call' in show(x) for x in a):
            self.find('call', d['next'], 'the call of a task throws bad_function_call: it must hold a %s' % d['next'], ev)
        if k == 'terminate' and d.get('next') == 'void':
            d['next'] = 'thrown'
            return True
        if k != 'user' or not q.startswith('w::'):
            return False
        self.n += 1
        l = last(q)
        if l == 'make_unique':
            self.make(d, a[0], ev.full, a[1] if len(a) > 1 else None, ev, 'move' if '&&' not in ev.full else 'move')
            return True
        if l == 'delete':
            self.drop(d, a[0], None, ev)
            return True
        if scope(q) == 'w' and l in MARK:
            self.mark(ev, st, d, l, targ(ev.full), a)
            return True
        c = cls(ev.full)
        if l.startswith('~'):
            self.drop(d, a[0], c, ev)
            return True
        if l == last(scope(q)) and a:
            self.make(d, a[0], c, a[1] if len(a) == 2 else None, ev, 'move' if '&&' in ev.full else 'copy')
            return True
        if l == 'operator()':
            o = norm(a[0])
            x = d.get(o)
            if x is None:
                self.find('call', c, 'a %s is called at a place where none lives' % c, ev)
            else:
                if x[0] != c:
                    self.find('call', c, 'a %s is called as a %s' % (x[0], c), ev)
                if x[1] == 'moved':
                    self.find('call', c, 'a %s that was moved from is called' % c, ev)
            w = d.get('next')
            if w != c:
                self.find('call', '%s %s' % (w, c), 'the task calls a %s: it holds %s' % (c, 'nothing' if w in ('void', 'thrown') else w), ev)
            d['next'] = ('done', c)
            for v in a[1:]:
                y = d.get(norm(v))
                if y is None:
                    self.find('argument', c, 'the callable gets an argument that is not alive', ev)
                elif y[1] != 'fresh':
                    self.find('argument', c, 'the callable gets an argument that was moved from', ev)
        if ev.extra is not None:
            d[norm(ev.extra)] = ('w::val', 'fresh')
        return True

    def mark(self, ev, st, d, l, t, a):
        if l == 'next':
            d['next'] = t
        elif l == 'calls':
            if t == 'void':
                self.find('empty', 'call', 'a call of an empty task returns', ev)
            elif d.get('next') != ('done', t):
                self.find('call', t, 'the task does not call the %s that it holds' % t, ev)
            self.ok.add(('calls', t))
        elif l == 'truth':
            v = self.it.truth(st, a[0])
            if v is None or v != (t == 'true'):
                self.find('empty', t, '%s where the task %s' % ('the test of the task is ' + ('unknown' if v is None else str(v).lower()), 'holds a callable' if v is False else 'is empty' if v else ''), ev)
            self.ok.add(('truth', t))
        elif l == 'same':
            v, w = self.it.truth(st, a[0]), self.it.truth(st, a[1])
            if v is None or w is None:
                if a[0] is a[1]:
                    return
                self.find('empty', 'same', 'whether the task is empty does not follow whether the callable is (%s, %s)' % (show(a[0]), show(a[1])), ev)
            elif v != w:
                self.find('empty', 'same', 'the task made of an empty callable is not empty' if not w or not v else 'the task made of a callable is empty', ev)
            self.ok.add(('same', v))
        elif l == 'points':
            if t == 'void':
                if a[0] is not NULL:
                    self.find('target', t, 'target() of another type is not null (%s)' % show(a[0]), ev)
            else:
                x = d.get(norm(a[0]))
                if x is None or x[0] != t:
                    self.find('target', t, 'target() does not point at the callable (%s)' % show(a[0]), ev)
            self.ok.add(('points', t))
        elif l == 'type':
            if a[0] is not a[1]:
                self.find('target', 'type', 'target_type() is %s: the task holds %s' % (show(a[0]), 'nothing' if t == 'void' else 'a ' + t), ev)
            self.ok.add(('type', t))


def throws(ev):
    return ev.kind == 'user'


def run(f, p):
    it = TaskInterp(p, deep=True, throws=throws)
    w = Watch(f, it)
    w.cap = capacity(p)
    it.on = w
    n = 0
    for k, r, st in it.run(f):
        n += 1
        d = dict(st.tr[0]) if st.tr else {}
        if k in ('ret', 'unwind'):
            for a, x in d.items():
                if a in ('next', 'escapes'):
                    continue
                if a.k != 'arg':
                    w.bad.setdefault(('leak', show(a)), ('a %s is never destroyed%s' % (x[0], '' if k == 'ret' else ' when the program is left by an exception'), f.where() if hasattr(f, 'where') else '', []))
        if d.get('escapes') and k == 'ret':
            w.bad.setdefault(('call', 'exception'), ('an exception thrown by the callable is lost', '', []))
        if d.get('escapes') and k == 'unwind':
            w.ok.add(('escapes', d['escapes']))
        if d.get('next') == 'thrown':
            w.ok.add(('thrown', k))
            want = 'unwind' if 'task_<false' in f.d else 'terminate'
            if k != want:
                w.bad.setdefault(('empty', 'outcome'), ('the call of an empty task ends with %s' % k, '', []))
    return w, n


RULES = {'T01': ('construct', 'destroy', 'leak', 'fit'), 'T02': ('call', 'argument', 'empty', 'target', 'dispatch')}


def program(ck):
    p = common.load(ck, ['w_tasks.cpp'])
    for t in p.types.values():
        for f in t['f']:
            if f[2] == 0:
                FIRST.add((tname(t['n']), f[0]))
    return p


def one(f):
    w, n = run(f, one.p)
    return f.q, f.d, {k: (v[0], v[1]) for k, v in w.bad.items()}, w.ok, w.n, n


def check(ck, rules):
    p = program(ck)
    one.p = p
    fs = [f for f in p.funcs.values() if f.q.startswith('w::t_')]
    paths = events = 0
    for q, d, bad, ok, n, k in common.pmap(one, fs):
        paths += k
        events += n
        ck.inst('program', d)
        for x in ok:
            ck.inst(x[0], '%s %s' % (d, x[1]))
        for (rule, key), (msg, where) in bad.items():
            if rule in rules:
                ck.find(rule, '%s %s' % (rule, key), '%s (in %s)' % (msg, q[3:]), where or 'witness/w_tasks.cpp')
    ck.require('program', 90)
    ck.cov['paths'] = paths
    ck.cov['events'] = events


if __name__ == '__main__':
    import sys
    p = program(None)
    for f in p.funcs.values():
        if f.q.startswith('w::t_') and re.search(sys.argv[1], f.d):
            w, n = run(f, p)
            print(f.d, n, w.n, sorted(map(str, w.ok)))
            for k, v in w.bad.items():
                print('   ', k, v[:2])
