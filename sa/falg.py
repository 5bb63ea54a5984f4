"""What the algorithms on forests must do, decided on abstract heaps (see forest.py and shape.py)."""
import re

from build import Broken
from forest import Forest, Judge, L, Limit, Model, Out, T, full, links_match, positions, root_shapes, short, show, trees
from shape import Shape, St, ladd, lin

UNIT = 'w_falg.cpp'
FILE = 'include/stlab/forest_algorithms.hpp'
NAMES = ['n1', 'n2', 'n3', 'n4', 'n5']
OTHER = ['k1', 'k2', 'k3', 'k4', 'k5']


def F_run(F, fn):
    return Shape(F.p).run(F.fn(fn), [('p', 'x', 0)], St())


class Alg:
    def __init__(self, ck):
        self.ck = ck
        self.F = F = Forest(ck, UNIT)
        self.failed = set()
        self.undecided = 0
        t = next((t for t in F.p.types.values() if 'transcribe_iterator<' in t['n'] and t['f']), None)
        self.tr = t and next((f[2] // 8 for f in t['f'] if f[2] >= 0 and 'iterator' in f[1] and not f[1].endswith('*')), None)
        self.trc = t and next((f[2] // 8 for f in t['f'] if f[2] >= 0 and f[1].endswith('*')), None)
        if self.tr is None or self.trc is None:
            raise Broken('the fields of transcribe_iterator are not found')
        r = [v for k, v, o in F_run(F, 'second')]
        self.stride = r[0][2] if len(r) == 1 and isinstance(r[0], tuple) and r[0][0] == 'p' else None
        r = [v for k, v, o in F_run(F, 'engaged')]
        self.flag = None
        for x in re.findall(r'x\+(\d+)', str(r)):
            self.flag = int(x)
        if not self.stride or self.flag is None:
            raise Broken('the layout of optional is not found')

    def find(self, op, what, sh):
        self.failed.add(op)
        self.ck.find('alg', op, '%s: %s' % (op.replace('_', ' '), what), FILE, ['shape: ' + sh])

    def place(self, o, name, m):
        """the edge at which a transcriber is"""
        return o.mem.get((name, self.tr + self.F.y.node)), o.mem.get((name, self.tr + self.F.y.edge))

    def at(self, s, name, t, m, f):
        s.mem[(name, self.trc)] = ('p', f, 0)
        s.mem[(name, self.tr + self.F.y.node)] = self.F.node(t[0], m.roots)
        s.mem[(name, self.tr + self.F.y.edge)] = int(t[1] == L)

    def go(self, op, sh, s, m0, judge, args, throws=False):
        """judge(outcome, out) -> what is wrong, or None"""
        F = self.F
        self.ck.inst(op.replace('_', '-'), sh)
        if op in self.failed:
            return
        try:
            outs = F.run(('op_' if 'op_' + op in F.fns else '') + op, args, s, (lambda q: q == 'w::val::val') if throws else (lambda q: False))
        except Limit as e:
            if e.out:
                self.undecided += 1
            else:
                self.find(op, 'does not end', sh)
            return
        for k, v, o in outs:
            out = Out(F, k, o, m0)
            w = 'the program ends' if k == 'stop' else out.bad[0][1] if out.bad else None
            if w is None and k == 'ret':
                w = judge(o, out)
                if w is None and [n for n in out.new if n not in out.deleted and n not in (self.bound.values() if isinstance(self.bound, dict) else self.bound)]:
                    w = 'a new node is lost'
                if w is None and out.deleted:
                    w = 'a node is deleted'
                if w is None and [d for d in out.live if d[0].startswith('@') and d not in F.values and d != ('@v', 0)]:
                    w = 'a value is lost'
            if w:
                self.find(op, w, sh)

    def same(self, o, m1, m0, out, vals=None, sizes=None):
        """links, values and sizes are those of the model"""
        b = self.bound = {}
        w = links_match(self.F, o, m1, m0, b)
        if w:
            return w
        for n, x in (vals or {}).items():
            if n in b and out.ident.get((b[n], self.F.data)) != x:
                return 'a new node does not have the value that it was given'
        for f, z in (sizes or {}).items():
            v = o.mem.get((f, self.F.y.size))
            if v != 0 and lin(v) != lin(z):
                return 'the size of the forest becomes wrong'
        return None


def after(m, q, edges, p):
    """puts a chain of edges between q and p"""
    for e in edges:
        m.nxt[q] = e
        q = e
    m.nxt[q] = p


def dests():
    """whole forests g, to which something is added in front"""
    for d, m, n in root_shapes('g'):
        yield d, m, n


def plus(es):
    return [('+' + n, e) for n, e in es]


def check(ck):
    A = Alg(ck)
    F = A.F
    most = 3 if ck.tier == 'quick' else 4
    ptr = lambda n: ('p', n, 0)
    for k in range(most + 1):
        for es in trees(k, NAMES):
            sh = ' '.join(short(e) for e in es) or 'empty'
            src = full(Model(('f', 'g')), 'f', es)
            # the same shape?
            for k2 in range(most + 1):
                for e2 in trees(k2, OTHER):
                    m = full(src.copy(), 'g', e2)
                    like = [(NAMES.index(a), b) for a, b in es] == [(OTHER.index(a), b) for a, b in e2]
                    for z in {k, 0}:
                        for z2 in {k2, 0}:
                            def judge(o, out):
                                r = o.mem.get(('@r', 0))
                                if r != int(like):
                                    return 'gives %s for forests of %s' % (
                                        'true' if r == 1 else 'false' if r == 0 else 'something else', 'the same shape' if like else 'different shapes')
                                if [e for e in o.ev if e[0] == 'user']:
                                    return 'looks at the values'
                                return A.same(o, m, m, out)
                            A.go('equal_shape', '%s and %s, sizes %d and %d' % (sh, ' '.join(short(e) for e in e2) or 'empty', z, z2),
                                 F.heap(m, {'f': z, 'g': z2}), m, judge, [ptr('@r'), ptr('f'), ptr('g')])
            # transcription to the front of a forest
            for d, g, n in dests():
                N = ('s', 'N')
                for z in ({n, 0} if n is not None else (N, 0)):
                    m0 = src.copy()
                    m0.nxt.update(g.nxt)
                    fst = g.nxt[('g', L)]
                    m1 = m0.copy()
                    after(m1, ('g', L), plus(es), fst)
                    want = {'f': k, 'g': ladd(z, k) if z or n == 0 else 0}

                    def done(o, out, vals, m1=m1, m0=m0, want=want, fst=fst):
                        w = A.same(o, m1, m0, out, vals, want)
                        r = A.place(o, '@r', m1)
                        if w is None and o.mem.get(('@r', A.trc)) != ('p', 'g', 0):
                            w = 'the result does not write to the forest'
                        if w is None and r != (F.node(fst[0], m1.roots), int(fst[1] == L)):
                            w = 'the result is not at the end of what was written'
                        return w
                    pv = {'+' + x: 'p:v:' + x for x in NAMES}
                    sv = {'+' + x: 'v:' + x for x in NAMES}
                    for op, vals in (('transcribe', pv), ('transcribe_same', sv)):
                        A.go(op, '%s to %s' % (sh, d), F.heap(m0, {'f': k, 'g': z}), m0, lambda o, out, vals=vals: done(o, out, vals),
                             [ptr('@r'), ptr('g'), ptr('f')])
                    s = F.heap(m0, {'f': k, 'g': z})
                    F.iter(s, '@a', m0.nxt[('f', L)], m0)
                    F.iter(s, '@b', ('f', T), m0)
                    A.go('transcribe_part', '%s to %s' % (sh, d), s, m0, lambda o, out: done(o, out, pv), [ptr('@r'), ptr('g'), ptr('@a'), ptr('@b')])
                    # a sequence of values, with nothing for each trailing edge
                    mg = g.copy()
                    m1 = mg.copy()
                    after(m1, ('g', L), plus(es), fst)
                    s = F.heap(mg, {'g': z})
                    F.values = {}
                    for i, (x, e) in enumerate(es):
                        s.mem[('@s', i * A.stride + A.flag)] = int(e == L)
                        if e == L:
                            F.values[('@s', i * A.stride)] = 'v:' + x
                    A.go('unflatten', '%s to %s' % (sh, d), s, mg, lambda o, out, m1=m1, mg=mg, want=want: done(o, out, sv, m1, mg, {'g': want['g']}),
                         [ptr('@r'), ptr('g'), ptr('@s'), ('p', '@s', len(es) * A.stride)]) if k else None
                    F.values = {}
                    if k and k <= 2:
                        decide(A, sh + ' to ' + d, es, m0, fst, {'f': k, 'g': z})
            for op in ('flatten', 'cflatten'):
                A.go(op, sh, F.heap(src, {'f': k}), src, lambda o, out: A.same(o, src, src, out) or written(F, o, es), [ptr('f'), ptr('@o')])
    steps(A)
    if A.undecided > 20 and not ck.findings:
        raise Broken('%d outcomes depend on nodes outside of the abstract heap' % A.undecided)
    if ck.findings:
        ck.mins.clear()
    else:
        for r, n in (('equal-shape', 80), ('transcribe', 30), ('transcribe-same', 30), ('transcribe-if', 10), ('unflatten', 25), ('flatten', 9), ('tr-put', 4)):
            ck.require(r, n)
    ck.assumptions += ['what passes over whole forests was interpreted for every forest of up to %d nodes' % most]
    return ck.finish(
        'Abstract interpretation of the algorithms on every forest up to a number of nodes, with the forest that is written to left open '
        'behind the place of writing, and of the steps of a transcriber in every neighbourhood: the links, values and sizes after, the '
        'results and what an output iterator is given are those of the model. ',
        extra={'functions_entered': len(F.entered), 'interpretations': F.runs, 'ir_steps': F.steps})


def decide(A, sh, es, m0, fst, sizes):
    """a predicate decides which edges stand for new nodes"""
    F = A.F

    def judge(o, out):
        asked = []
        for e in o.ev:
            if e[0] == 'user' and e[1] == 'w::pick::ask':
                n = e[2][-2]
                asked.append(((n[1] if isinstance(n, tuple) and n[0] == 'p' and n[2] == F.data else '?', e[2][-1]), o.facts.get(('s', e[4]))))
        if [a for a, v in asked] != [(n, int(e == L)) for n, e in es]:
            return 'the predicate is not asked once about each edge, in order'
        m1 = m0.copy()
        cur, depth, vals = fst, [], {}
        for (n, e), (a, yes) in zip(es, asked):
            if yes:
                x = '+%s%s' % (n, e)
                vals[x] = 'p:v:' + n
                m1.nxt[(x, L)] = (x, T)
                m1.put((x, L), (x, T), cur)
                depth.append(cur)
                cur = (x, T)
            elif not depth:
                A.bound = set(out.new)
                return None         # more ends than nodes: not a forest
            else:
                cur = depth.pop()
        w = A.same(o, m1, m0, out, vals)
        r = A.place(o, '@r', m1)
        if w is None and r != (F.node(A.bound.get(cur[0], cur[0]), m1.roots), int(cur[1] == L)):
            w = 'the result is not at the end of what was written'
        return w
    A.go('transcribe_if', sh, F.heap(m0, sizes), m0, judge, [('p', '@r', 0), ('p', 'g', 0), ('p', 'f', 0)])


def written(F, o, es):
    """an output iterator is given the values, and nothing for each trailing edge, and is advanced once after each"""
    got, adv = [], 0
    for e in o.ev:
        if e[0] != 'user' or not e[1].startswith('w::out::'):
            continue
        if e[1].endswith('operator++'):
            adv += 1
            if adv > len(got) + 1:
                return 'the output iterator is advanced twice'
        elif e[1].endswith('operator=') and 'out const&' not in e[3]:
            if adv not in (len(got), len(got) + 1):
                return 'the output iterator is not advanced'
            if 'nullopt' in e[3]:
                got.append(None)
            else:
                n = e[2][1]
                got.append(n[1] if isinstance(n, tuple) and n[0] == 'p' and n[2] == F.data else '?')
    if adv != len(got):
        return 'the output iterator is not advanced after each value'
    want = [n if e == L else None for n, e in es]
    if got != want:
        return 'writes %s, %s is expected' % (' '.join(map(str, got)) or 'nothing', ' '.join(map(str, want)) or 'nothing')


def steps(A):
    """a transcriber puts a value before its place and goes on inside of the new node; ++ goes to the next place"""
    F = A.F
    N = ('s', 'N')
    for root in (None, 'f'):
        for d, chains, a, b in positions('d', root):
            m = Model(('f', 'g'))
            for c in chains:
                m.seq(*c)
            if root:
                m.root('f')
            empty = root and d == 'no children'
            for op in ('tr_put', 'tr_move'):
                m1 = m.copy()
                m1.insert('+1', b)
                s = F.heap(m, {'f': 0 if empty else N})
                A.at(s, '@t', b, m, 'f')

                def judge(o, out):
                    w = A.same(o, m1, m, out, {'+1': 'v'}, {'f': 1 if empty else ladd(N, 1)})
                    r = A.place(o, '@t', m1)
                    if w is None and r != (F.node(A.bound['+1'], m1.roots), 1):
                        w = 'the transcriber is not at the new node'
                    return w
                F.values = {('@v', 0): 'v'}
                A.go(op, d + (root or ''), s, m, judge, [('p', '@t', 0), ('p', '@v', 0)], throws=True)
                F.values = {}
            for op, arg in (('tr_inc', ['@t']), ('tr_inc_post', ['@r', '@t'])):
                if a == ('f', T):
                    continue
                s = F.heap(m, {'f': N})
                A.at(s, '@t', a, m, 'f')

                def judge(o, out):
                    w = A.same(o, m, m, out)
                    if w is None and A.place(o, '@t', m) != (F.node(b[0], m.roots), int(b[1] == L)):
                        w = 'the transcriber is not at the next edge'
                    if w is None and op == 'tr_inc_post' and A.place(o, '@r', m) != (F.node(a[0], m.roots), int(a[1] == L)):
                        w = 'the result is not at the place before'
                    return w
                A.go(op, d + (root or ''), s, m, judge, [('p', x, 0) for x in arg])
            s = F.heap(m, {'f': N})
            A.at(s, '@t', b, m, 'f')
            A.go('tr_trailing', d + (root or ''), s, m, lambda o, out: A.same(o, m, m, out) or (
                None if A.place(o, '@t', m) == (F.node(b[0], m.roots), 0) else 'the transcriber is not at the trailing edge'), [('p', '@t', 0)])
