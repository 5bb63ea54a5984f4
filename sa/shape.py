"""Shape analysis of linked nodes: an abstract interpreter over the IR with standard functions included.

An abstract heap holds the nodes next to the place where an operation works; every other node is left out, and a link
that leads out of the heap is a symbol that differs from every node in it. So one abstract heap stands for every
structure with that neighbourhood. Sizes are linear expressions over symbols. User code is opaque: it may throw, and
a truth value it gives is taken both ways.

Values: int; ('p', object, offset); ('s', name) an unknown; ('l', ((symbol, factor), ...), constant); ('agg', ...)
"""
from names import qname


class Limit(Exception):
    out = False     # did it leave the abstract heap?


def lin(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return {}, v
    if v[0] == 'l':
        return dict(v[1]), v[2]
    if v[0] == 's':
        return {v[1]: 1}, 0
    return None


def mklin(d, c):
    d = {k: x for k, x in d.items() if x}
    if not d:
        return c
    return ('l', tuple(sorted(d.items())), c)


def ladd(a, b, k=1):
    x, y = lin(a), lin(b)
    if x is None or y is None:
        return None
    d = dict(x[0])
    for s, f in y[0].items():
        d[s] = d.get(s, 0) + k * f
    return mklin(d, x[1] + k * y[1])


class St:
    __slots__ = ('mem', 'dead', 'ev', 'facts', 'n', 'steps')

    def __init__(self):
        self.mem = {}
        self.dead = set()
        self.ev = []
        self.facts = {}
        self.n = 0
        self.steps = 0

    def copy(self):
        s = St()
        s.mem = dict(self.mem)
        s.dead = set(self.dead)
        s.ev = list(self.ev)
        s.facts = dict(self.facts)
        s.n = self.n
        s.steps = self.steps
        return s


class Shape:
    """throws(q) -> may this call to user code end with an exception?"""

    def __init__(self, prog, throws=lambda q: True, budget=60000):
        self.p = prog
        self.throws = throws
        self.budget = budget
        self.blocks = {}
        self.seen = set()

    # ---------------------------------------------------------------- values
    def val(self, v, ssa):
        if isinstance(v, int):
            return ssa.get(v, ('s', 'undef'))
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'n':
            return 0
        if k in ('g', 'f'):
            return ('p', '@' + str(v[1]), 0)
        if k == 'u':
            return ('s', 'undef')
        return ('s', 'k:' + str(v))

    def ptr(self, v):
        if isinstance(v, int):
            return None
        if v[0] == 'p':
            return (v[1], v[2])
        if v[0] == 's':
            return ('?' + v[1], 0)
        return None

    def load(self, s, v):
        a = self.ptr(v)
        if a is None:
            s.ev.append(('null', None))
            return ('s', 'null')
        if a[0] in s.dead:
            s.ev.append(('dead', a[0]))
        if a in s.mem:
            return s.mem[a]
        if a[0][0] == '?':
            s.ev.append(('out', a[0]))      # the value depends on what lies outside of the abstract heap
        return ('s', '%s+%d' % a)

    def store(self, s, v, x):
        a = self.ptr(v)
        if a is None:
            s.ev.append(('null', None))
            return
        if a[0] in s.dead:
            s.ev.append(('dead', a[0]))
        s.mem[a] = x

    def cmp(self, s, pred, a, b):
        if a == b and pred in ('eq', 'uge', 'sge', 'ule', 'sle'):
            return 1
        if a == b and pred in ('ne', 'ugt', 'sgt', 'ult', 'slt'):
            return 0
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 'u':
                a, b = a & (2**64 - 1), b & (2**64 - 1)
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'slt': a < b, 'ugt': a > b, 'sgt': a > b,
                        'ule': a <= b, 'sle': a <= b, 'uge': a >= b, 'sge': a >= b}[pred])
        if pred in ('eq', 'ne'):
            kinds = {x[0] if not isinstance(x, int) else 'i' for x in (a, b)}
            if kinds <= {'p', 'i'} or kinds == {'p', 's'}:
                return int(pred == 'ne')        # different nodes; a link out of the heap
            if kinds == {'s'} and '+' in a[1] and '+' in b[1]:
                return int(pred == 'ne')
            if kinds == {'s', 'i'} and 0 in (a, b) and '+' in (a if b == 0 else b)[1]:
                return int(pred == 'ne')
            x = lin(a), lin(b)
            if kinds <= {'l', 'i', 's'} and None not in x:
                d = ladd(a, b, -1)
                dd, c = lin(d)
                if not dd:
                    return int((c == 0) == (pred == 'eq'))
                if all(f > 0 for f in dd.values()) and c >= 0:
                    return int(pred == 'ne')    # symbols of sizes are at least one
        return ('c', pred, a, b)

    # ---------------------------------------------------------------- execution
    def run(self, fn, args, st, depth=0):
        """-> [(kind, value, state)], kind in ret, unwind, stop"""
        if depth > 60:
            raise Limit('calls are too deep')
        self.seen.add(fn.m)
        bl = self.blocks.get(fn.m)
        if bl is None:
            bl = self.blocks[fn.m] = fn.load()
        outs = []
        frame = st.n
        work = [(0, 0, None, dict(enumerate(args)), st)]
        while work:
            b, i, prev, ssa, s = work.pop()
            if i == 0:
                new = {}
                for ins in bl[b]:
                    if ins['o'] != 'phi':
                        break
                    for v, src in ins['v']:
                        if src == prev:
                            new[ins['i']] = self.val(v, ssa)
                ssa = dict(ssa)
                ssa.update(new)
            insts = bl[b]
            while i < len(insts):
                ins = insts[i]
                i += 1
                s.steps += 1
                if s.steps > self.budget:
                    x = Limit('%s does not end within %d steps' % (fn.d[:100], self.budget))
                    x.out = any(e[0] == 'out' for e in s.ev)
                    raise x
                o = ins['o']
                if o == 'phi':
                    continue
                if o == 'call':
                    res = self.call(fn, ins, ssa, s, depth)
                    go = []
                    for k, r, s2 in res:
                        if k == 'ret':
                            d = ssa if len(res) == 1 else dict(ssa)
                            if 'i' in ins:
                                d[ins['i']] = r
                            go.append((d, s2))
                        elif k == 'unwind':
                            if 'un' in ins:
                                work.append((ins['un'], 0, b, dict(ssa), s2))
                            elif fn.nu:
                                s2.ev.append(('terminate', fn.d[:100]))
                                outs.append(('stop', None, s2))
                            else:
                                outs.append(('unwind', None, s2))
                        else:
                            outs.append((k, r, s2))
                    if not go:
                        break
                    if 'to' in ins:
                        for d, s2 in go:
                            work.append((ins['to'], 0, b, d, s2))
                        break
                    for d, s2 in go[1:]:
                        work.append((b, i, prev, d, s2))
                    ssa, s = go[0]
                elif o == 'br':
                    if 'c' not in ins:
                        work.append((ins['t'][0], 0, b, ssa, s))
                        break
                    c = self.val(ins['c'], ssa)
                    for v, s2 in self.decide(s, c):
                        work.append((ins['t'][0 if v else 1], 0, b, dict(ssa), s2))
                    break
                elif o == 'switch':
                    c = self.val(ins['c'], ssa)
                    if isinstance(c, int):
                        work.append((dict((k, t) for k, t in ins['cs']).get(c, ins['d']), 0, b, ssa, s))
                    else:
                        for t in [ins['d']] + [t for _, t in ins['cs']]:
                            work.append((t, 0, b, dict(ssa), s.copy()))
                    break
                elif o == 'ret':
                    outs.append(('ret', self.val(ins['v'], ssa) if 'v' in ins else None, s))
                    break
                elif o == 'resume':
                    outs.append(('unwind', None, s))
                    break
                elif o == 'unreachable':
                    outs.append(('stop', None, s))
                    break
                else:
                    self.step(fn, ins, ssa, s, frame)
        return outs

    def decide(self, s, c):
        if isinstance(c, int):
            return [(c & 1, s)]
        neg = False
        while c[0] == 'not':
            c, neg = c[1], not neg
        if c in s.facts:
            return [(s.facts[c] != neg, s)]
        t = s.copy()
        s.facts[c] = True
        t.facts[c] = False
        return [(not neg, s), (neg, t)]

    def step(self, fn, ins, ssa, s, frame):
        o = ins['o']
        V = lambda k: self.val(ins[k], ssa)
        if o == 'alloca':
            s.n += 1
            ssa[ins['i']] = ('p', '%s#%d' % (ins.get('n', ''), s.n), 0)
        elif o == 'gep':
            b = V('b')
            off = ins['off']
            n = off[0] if off else 0
            for v, k in off[1:]:
                x = self.val(v, ssa)
                n = n + x * k if isinstance(x, int) and n is not None else None
            if n is None or isinstance(b, int) or b[0] not in ('p', 's'):
                ssa[ins['i']] = ('s', 'gep %s %s' % (b, off))
            elif b[0] == 's':
                ssa[ins['i']] = ('p', '?' + b[1], n)
            else:
                ssa[ins['i']] = ('p', b[1], b[2] + n)
        elif o == 'load':
            ssa[ins['i']] = self.load(s, V('p'))
        elif o == 'store':
            self.store(s, V('p'), V('v'))
        elif o == 'cast':
            v = V('v')
            if isinstance(v, int) and ins['op'] == 'trunc' and ins.get('t') == 'i1':
                v &= 1
            elif isinstance(v, int) and ins['op'] == 'zext' and v < 0:
                v &= 1 if v == -1 else 2**64 - 1
            ssa[ins['i']] = v
        elif o == 'cmp':
            ssa[ins['i']] = self.cmp(s, ins['p'], V('a'), V('b'))
        elif o == 'bin':
            a, b, op = V('a'), V('b'), ins['op']
            r = None
            if isinstance(a, int) and isinstance(b, int):
                r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
                     'xor': lambda: a ^ b, 'shl': lambda: a << (b & 63), 'lshr': lambda: (a & (2**64 - 1)) >> (b & 63),
                     'ashr': lambda: a >> (b & 63)}.get(op, lambda: None)()
            elif op in ('add', 'sub'):
                r = ladd(a, b, 1 if op == 'add' else -1)
            elif op == 'xor' and b in (1, -1) and not isinstance(a, int):
                r = a[1] if a[0] == 'not' else ('not', a)
            ssa[ins['i']] = r if r is not None else ('s', '(%s %s %s)' % (a, op, b))
        elif o == 'sel':
            c = V('c')
            if isinstance(c, int):
                ssa[ins['i']] = V('a') if c & 1 else V('b')
            else:
                ssa[ins['i']] = ('s', 'sel(%s,%s,%s)' % (c, V('a'), V('b')))
        elif o == 'memcpy':
            d, sr, n = self.ptr(V('d')), self.ptr(V('s')), V('n')
            n = n if isinstance(n, int) else 0
            if d and sr:
                for x in (d, sr):
                    if x[0] in s.dead:
                        s.ev.append(('dead', x[0]))
                cp = {k[1] - sr[1]: v for k, v in s.mem.items() if k[0] == sr[0] and sr[1] <= k[1] < sr[1] + n}
                for k in [k for k in s.mem if k[0] == d[0] and d[1] <= k[1] < d[1] + n]:
                    del s.mem[k]
                for k, v in cp.items():
                    s.mem[(d[0], d[1] + k)] = v
        elif o == 'memset':
            d, n, v = self.ptr(V('d')), V('n'), V('v')
            if d and isinstance(n, int) and v == 0:
                for k in range(0, n, 8):
                    s.mem[(d[0], d[1] + k)] = 0
        elif o == 'rmw':
            a = V('p')
            old = self.load(s, a)
            v = V('v')
            new = ladd(old, v, 1 if ins['op'] == 'add' else -1) if ins['op'] in ('add', 'sub') else v if ins['op'] == 'xchg' else None
            self.store(s, a, new if new is not None else ('s', '(%s %s %s)' % (old, ins['op'], v)))
            ssa[ins['i']] = old
        elif o == 'ev':
            v = V('v')
            ssa[ins['i']] = v[1 + ins['x']] if not isinstance(v, int) and v[0] == 'agg' and ins['x'] + 1 < len(v) else ('s', 'ev')
        elif o == 'iv':
            b = V('b')
            l = list(b[1:]) if not isinstance(b, int) and b[0] == 'agg' else []
            while len(l) <= ins['x']:
                l.append(('s', 'undef'))
            l[ins['x']] = V('v')
            ssa[ins['i']] = ('agg',) + tuple(l)
        elif o == 'lend':
            pass
        elif 'i' in ins:
            ssa[ins['i']] = ('s', o)

    # ---------------------------------------------------------------- calls
    def call(self, fn, ins, ssa, s, depth):
        args = [self.val(a, ssa) for a in ins['a']]
        m = ins.get('f')
        if m is None:
            s.ev.append(('indirect', fn.d[:80]))
            return [('ret', ('s', 'icall'), s)]
        if m in ('_Znwm', '_ZnwmSt11align_val_t'):
            t = s.copy()
            s.n += 1
            h = 'new%d' % s.n
            s.ev.append(('new', h))
            return [('ret', ('p', h, 0), s), ('unwind', None, t)]
        if m.startswith('_ZdlPv'):
            a = self.ptr(args[0])
            if a is not None:
                s.ev.append(('delete', a[0] if a[1] == 0 else '%s+%d' % a))
                if a[0] in s.dead:
                    s.ev.append(('dead', a[0]))
                s.dead.add(a[0])
            return [('ret', None, s)]
        if m.startswith('llvm.'):
            return [('ret', ('s', m), s)]
        if m in ('__clang_call_terminate', '_ZSt9terminatev', 'abort', '__assert_fail'):
            s.ev.append(('terminate', fn.d[:100]))
            return [('stop', None, s)]
        if m == '__cxa_begin_catch' or m == '__cxa_end_catch' or m == '__cxa_get_exception_ptr':
            return [('ret', ('s', m), s)]
        if m in ('__cxa_rethrow', '__cxa_throw', '_Unwind_Resume'):
            return [('unwind', None, s)]
        if m == '__cxa_allocate_exception':
            return [('ret', ('p', 'exception', 0), s)]
        f = self.p.funcs.get(m)
        if f is not None:
            return self.run(f, args, s, depth + 1)
        d = self.p.dem(m)
        q = qname(d)
        r = ('s', '%s(%s)#%d' % (q.split('::')[-1], ','.join(self.name(a) for a in args), s.n))
        s.n += 1
        for a in args:
            x = self.ptr(a)
            if x and x[0] in s.dead:
                s.ev.append(('dead', x[0]))
        outs = []
        if not ins.get('nu') and self.throws(q):
            t = s.copy()
            outs.append(('unwind', None, t))
            t.ev.append(('threw', q, tuple(args), d))
        s.ev.append(('user', q, tuple(args), d, r[1]))
        return [('ret', r, s)] + outs

    def name(self, v):
        if isinstance(v, int):
            return str(v)
        if v[0] == 'p':
            return v[1] + ('+%d' % v[2] if v[2] else '')
        return str(v[1])
