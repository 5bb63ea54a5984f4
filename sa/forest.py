"""What the operations of a forest must do, decided on abstract heaps (see shape.py).

A forest is a cyclic sequence of edges: of each node the leading edge (L) comes before and the trailing edge (T) after the
edges of its children; the forest itself is the node at the root. A Model is what an operation is expected to make of
the sequence; the links of the nodes that the abstract interpretation ends with are compared with it.
"""
import itertools

import common
from build import Broken
from shape import Shape, St, Limit, ladd, lin

UNIT = 'w_forest.cpp'
L, T = 'L', 'T'


class Lay:
    pass


def layout(p, fns):
    y = Lay()
    recs = {}
    for t in p.types.values():
        recs.setdefault(t['n'].replace('stlab::v2::', '').replace('stlab::', ''), t)

    def rec(n):
        for k, t in recs.items():
            if k == n:
                return t
        raise Broken('type %s is not found' % n)
    it = rec('detail::forest_iterator<w::val>')
    y.node = next((f[2] // 8 for f in it['f'] if f[2] >= 0 and f[1].endswith('*')), None)
    y.edge = next((f[2] // 8 for f in it['f'] if f[2] >= 0 and 'forest_edge' in f[1]), None)
    fo = rec('forest<w::val>')
    y.size = next((f[2] // 8 for f in fo['f'] if f[2] >= 0 and 'atomic' in f[1]), None)
    y.tail = next((f[2] // 8 for f in fo['f'] if f[2] >= 0 and 'node' in f[1]), None)
    if None in (y.node, y.edge, y.size, y.tail):
        raise Broken('the fields of forest and forest_iterator are not found')
    return y


class Forest:
    def __init__(self, ck, unit=UNIT):
        self.ck = ck
        self.p = common.load(ck, [unit])
        self.values = {}        # values that exist besides those of the nodes: place -> name
        self.fns = {}
        for f in self.p.funcs.values():
            if f.q.startswith('w::'):
                self.fns[f.q[3:]] = f
        self.y = layout(self.p, self.fns)
        self.links()
        self.runs = 0
        self.steps = 0
        self.entered = set()

    # ---------------------------------------------------------------- layout of nodes
    def links(self):
        y = self.y
        link = [f for f in self.p.funcs.values() if f.q.endswith('node_base::link') and '*&' in f.d.split('::link')[0] + '*&' and 'const' not in f.d.split(')')[-1]]
        self.off = {}
        step = {}
        for e, ev in ((L, 1), (T, 0)):
            for d, fn in (('next', 'it_inc'), ('prior', 'it_dec')):
                s = St()
                s.mem[('x', y.node)] = ('p', 'n', 0)
                s.mem[('x', y.edge)] = ev
                offs = set()
                for k, v, o in Shape(self.p).run(self.fn(fn), [('p', 'x', 0)], s):
                    v = o.mem.get(('x', y.node))
                    if isinstance(v, tuple) and v[0] == 's' and v[1].startswith('n+'):
                        offs.add(int(v[1][2:]))
                if len(offs) == 1:
                    step[(e, d)] = offs.pop()
        got = {}
        for f in link:
            for e, ev in ((L, 1), (T, 0)):
                for d, dv in (('next', 1), ('prior', 0)):
                    for k, v, o in Shape(self.p).run(f, [('p', 'n', 0), ev, dv], St()):
                        if k == 'ret' and isinstance(v, tuple) and v[0] == 'p' and v[1] == 'n':
                            got[(e, d)] = v[2]
        if len(set(got.values())) == 4:
            sw = {(e, 'prior' if d == 'next' else 'next'): o for (e, d), o in got.items()}
            self.off = sw if step == sw else got
        elif len(set(step.values())) == 4:
            self.off = step
        else:
            raise Broken('the links of a node are not found')
        s = St()
        s.mem[('x', y.node)] = ('p', 'n', 0)
        s.mem[('x', y.edge)] = 1
        r = [v for k, v, o in Shape(self.p).run(self.fn('at'), [('p', 'x', 0)], s)]
        if len(r) != 1 or r[0][0] != 'p' or r[0][1] != 'n':
            raise Broken('the value of a node is not found')
        self.data = r[0][2]

    def fn(self, n):
        if n not in self.fns:
            raise Broken('witness function %s is not found' % n)
        return self.fns[n]

    # ---------------------------------------------------------------- heaps
    def node(self, n, roots):
        return ('p', n, self.y.tail) if n in roots else ('p', n, 0)

    def slot(self, n, e, d, roots):
        return (n, (self.y.tail if n in roots else 0) + self.off[(e, d)])

    def heap(self, m, sizes):
        """m: Model; sizes: forest -> value of its size field"""
        s = St()
        for a, b in m.nxt.items():
            s.mem[self.slot(a[0], a[1], 'next', m.roots)] = self.node(b[0], m.roots)
            s.mem[self.slot(b[0], b[1], 'prior', m.roots)] = self.node(a[0], m.roots)
        for f, z in sizes.items():
            s.mem[(f, self.y.size)] = z
        return s

    def iter(self, s, name, tok, m, rev=False):
        s.mem[(name, self.y.node)] = self.node(tok[0], m.roots)
        s.mem[(name, self.y.edge)] = int(tok[1] == L)
        return ('p', name, 0)

    def run(self, fn, args, s, throws=lambda q: False, budget=20000):
        sh = Shape(self.p, throws, budget)
        r = sh.run(self.fn(fn), args, s)
        self.runs += 1
        self.steps += sum(o.steps for _, _, o in r)
        self.entered |= sh.seen
        return r

    def get_iter(self, s, name):
        return s.mem.get((name, self.y.node)), s.mem.get((name, self.y.edge))


class Model:
    """nxt: which edge follows which; edges are (node, L or T)"""

    def __init__(self, roots=('f', 'g')):
        self.nxt = {}
        self.roots = set(roots)

    def copy(self):
        m = Model(self.roots)
        m.nxt = dict(self.nxt)
        return m

    def seq(self, *toks):
        """a chain of edges; None is a gap"""
        for a, b in zip(toks, toks[1:]):
            if a is not None and b is not None:
                self.nxt[tok(a)] = tok(b)
        return self

    def root(self, f):
        self.nxt[(f, T)] = (f, L)
        return self

    def prev(self, t):
        for a, b in self.nxt.items():
            if b == t:
                return a
        return None

    def put(self, first, last, before):
        """link first..last (a chain) before an edge"""
        p = self.prev(before)
        self.nxt[p] = first
        self.nxt[last] = before

    def insert(self, n, before):
        self.nxt[(n, L)] = (n, T)
        self.put((n, L), (n, T), before)

    def erase(self, n):
        for e in (L, T):
            p = self.prev((n, e))
            self.nxt[p] = self.nxt.pop((n, e))

    def splice(self, first, last, pos):
        if first == last or pos in (first, last):
            return
        a, y = self.prev(first), self.prev(last)
        self.nxt[a] = last
        self.put(first, y, pos)

    def nodes(self):
        return {t[0] for ab in self.nxt.items() for t in ab}

    def walk(self, f):
        """the edges of a whole forest in order"""
        out = []
        t = self.nxt[(f, L)]
        while t != (f, T):
            out.append(t)
            t = self.nxt[t]
        return out


def tok(s):
    if isinstance(s, tuple):
        return s
    n, e = s.rsplit('.', 1)
    return (n, e)


def trees(n, names=None):
    """every forest of n nodes, as edge sequences over names"""
    def dyck(k):
        if k == 0:
            yield ()
            return
        for i in range(k):
            for a in dyck(i):
                for b in dyck(k - 1 - i):
                    yield ('(',) + a + (')',) + b
    for d in dyck(n):
        st, out, c = [], [], 0
        for x in d:
            if x == '(':
                nm = (names or 'abcdefgh')[c]
                c += 1
                st.append(nm)
                out.append((nm, L))
            else:
                out.append((st.pop(), T))
        yield out


def full(m, f, edges):
    m.seq((f, L), *edges, (f, T))
    m.root(f)
    return m


# -------------------------------------------------------------------- outcomes
class Out:
    """one way an operation can end, with what became of nodes and values"""

    def __init__(self, F, kind, s, m0):
        self.F, self.kind, self.s = F, kind, s
        self.bad = []
        self.new = [e[1] for e in s.ev if e[0] == 'new']
        self.deleted = [e[1] for e in s.ev if e[0] == 'delete']
        self.out = any(e[0] == 'out' for e in s.ev)
        live, ident = {}, {}
        for n in m0.nodes() - m0.roots:
            live[(n, F.data)] = 1
            ident[(n, F.data)] = 'v:' + n
        for k, v in [(('@v', 0), 'v')] + list(F.values.items()):
            live[k] = 1
            ident[k] = v
        for e in s.ev:
            if e[0] == 'dead':
                self.bad.append(('use', 'a node is used after it was deleted'))
            elif e[0] == 'null':
                self.bad.append(('use', 'a null node is used'))
            elif e[0] == 'terminate':
                self.bad.append(('terminate', 'the program is terminated'))
            elif e[0] == 'user':
                q, a = e[1], e[2]
                if q == 'w::val::val':
                    d = adr(a[0])
                    if live.get(d):
                        self.bad.append(('twice', 'a value is made over another'))
                    live[d] = 1
                    ident[d] = ident.get(adr(a[1])) if len(a) > 1 else None
                    if len(a) > 1 and not live.get(adr(a[1])):
                        self.bad.append(('use', 'a value is copied that does not exist'))
                elif q == 'w::val::~val':
                    d = adr(a[0])
                    if not live.get(d):
                        self.bad.append(('twice', 'a value is destroyed that does not exist'))
                    live[d] = 0
                elif q == 'w::proj::operator()':
                    live[adr(a[0])] = 1
                    ident[adr(a[0])] = 'p:%s' % ident.get(adr(a[-1]))
                    if not live.get(adr(a[-1])):
                        self.bad.append(('use', 'a value is read that does not exist'))
                elif q == 'w::val::operator=':
                    d = adr(a[0])
                    ident[d] = ident.get(adr(a[1]))
            elif e[0] == 'delete':
                if live.get((e[1], F.data)):
                    self.bad.append(('value', 'a node is deleted and its value is not destroyed'))
        self.live = {k for k, v in live.items() if v}
        self.ident = ident

    def lost(self, keep):
        """nodes and values that exist and are not in keep (the names of nodes)"""
        r = []
        for n in self.new:
            if n not in self.deleted and n not in keep:
                r.append('a new node is lost')
        for d in self.live:
            if d != ('@v', 0) and d not in self.F.values and d[0] not in keep and not d[0].startswith('new'):
                r.append('a value is lost')
        return r


def adr(v):
    if isinstance(v, tuple) and v[0] == 'p':
        return (v[1], v[2])
    return ('?', v)


def short(t):
    return '%s.%s' % t if isinstance(t, tuple) else str(t)


def links_match(F, s, m, m0, bind):
    """compares the links after with the model; names that start with + are new nodes, bound on the way"""
    def node(n):
        return F.node(bind.get(n, n), m.roots)
    todo = list(m.nxt.items())
    for _ in range(len(todo) + 1):
        rest = []
        for a, b in todo:
            if a[0].startswith('+') and a[0] not in bind:
                if not b[0].startswith('+') or b[0] in bind:
                    v = s.mem.get(F.slot(bind.get(b[0], b[0]), b[1], 'prior', m.roots))
                    if isinstance(v, tuple) and v[0] == 'p' and v[2] == 0 and v[1].startswith('new'):
                        bind[a[0]] = v[1]
                        rest.append((a, b))
                        continue
                rest.append((a, b))
                continue
            v = s.mem.get(F.slot(bind.get(a[0], a[0]), a[1], 'next', m.roots))
            if b[0].startswith('+') and b[0] not in bind:
                if isinstance(v, tuple) and v[0] == 'p' and v[2] == 0 and v[1].startswith('new'):
                    bind[b[0]] = v[1]
                else:
                    return 'after %s comes %s, a new node is expected' % (short(a), show(v))
            if v != node(b[0]):
                return 'after %s comes %s, %s is expected' % (short(a), show(v), short(b))
            v = s.mem.get(F.slot(bind.get(b[0], b[0]), b[1], 'prior', m.roots))
            if v != node(a[0]):
                return 'before %s comes %s, %s is expected' % (short(b), show(v), short(a))
        if not rest:
            break
        todo = rest
    else:
        return 'new nodes are not linked'
    if len(set(bind.values())) != len(bind):
        return 'a new node is in two places'
    # links that the operation had no reason to change
    told = {F.slot(bind.get(a[0], a[0]), a[1], 'next', m.roots) for a in m.nxt}
    told |= {F.slot(bind.get(b[0], b[0]), b[1], 'prior', m.roots) for b in m.nxt.values()}
    gone = m0.nodes() - m.nodes()
    for n in m0.nodes() - gone:
        for e in (L, T):
            for d in ('next', 'prior'):
                sl = F.slot(n, e, d, m.roots)
                if sl not in told and sl in s.mem and s.mem[sl] != ('s', '%s+%d' % sl):
                    return 'the %s link of %s.%s changes' % (d, n, e)
    return None


def show(v):
    if isinstance(v, tuple) and v[0] == 'p':
        return v[1]
    return 'something else' if v is not None else 'nothing'


# -------------------------------------------------------------------- shapes
def positions(t, root):
    """the places where an edge can be put: (description, chains, edge before, edge after); t: prefix of node names"""
    U, A, B = root or t + 'U', t + 'A', t + 'B'
    yield ('first child', [((U, L), (B, L))], (U, L), (B, L))
    yield ('no children', [((U, L), (U, T))], (U, L), (U, T))
    yield ('last child', [((A, T), (U, T))], (A, T), (U, T))
    if not root:
        yield ('between', [((A, T), (B, L))], (A, T), (B, L))


def ranges(t, root, most=3):
    """ranges of siblings with what is around them: (description, chains, first, last, count or None, nodes that are whole)"""
    V, W, Z = root or t + 'V', t + 'W', t + 'Z'
    for lt in ((V, L), (W, T)):
        for rt in ((Z, L), (V, T)):
            if root and lt[0] != root and rt[0] != root:
                continue
            d = '%s to %s' % ('start of parent' if lt[1] == L else 'sibling', 'sibling' if rt[1] == L else 'end of parent')
            X, Y = t + 'X', t + 'Y'
            yield (d + ', one leaf', [(lt, (X, L), (X, T), rt)], (X, L), rt, 1)
            yield (d + ', one node with children', [(lt, (X, L), None, (X, T), rt)], (X, L), rt, None)
            yield (d + ', several nodes', [(lt, (X, L), None, (Y, T), rt)], (X, L), rt, None)


NAMES = {'it': 'iterator', 'cit': 'const_iterator', 'rev': 'reverse iterator', 'crev': 'const reverse iterator', 'depth': 'depth iterator',
         'cdepth': 'const depth iterator', 'child': 'child iterator', 'cchild': 'const child iterator', 'pre': 'preorder iterator',
         'cpre': 'const preorder iterator', 'post': 'postorder iterator', 'cpost': 'const postorder iterator'}


class Judge:
    """Runs the operations and sorts what is wrong: own (ownership), put (structure), size, walk (iterators)"""

    def __init__(self, ck, F, rule):
        self.ck, self.F, self.rule = ck, F, rule
        self.failed = set()
        self.undecided = 0

    def limit(self, kind, op, shape, e):
        if e.out:
            self.undecided += 1
        else:
            self.fail(kind, op, 'does not end', shape)
            self.failed.add(op)

    def fail(self, kind, op, what, shape):
        self.failed.add(op if kind == self.rule else None)
        if kind == self.rule:
            name = op[3:] if op.startswith('op_') else op
            self.ck.find(kind, 'forest ' + NAMES.get(name, name), '%s: %s' % (NAMES.get(name, name), what), 'include/stlab/forest.hpp', ['shape: ' + shape])

    def op(self, op, shape, m0, m1, args, sizes, want, iters=(), res=None, gone=(), values=None, throws=True, child=False,
           ints=None, unwound=None, truth=None):
        """args: names of objects; sizes/want: forest -> size before/after; res: expected edge of the result r;
        unwound: model that an exception must leave (m0 unless given), or 'any'"""
        F = self.F
        self.ck.inst(op[3:].replace('_', '-'), shape)
        if op in self.failed:
            return
        m0, m1 = pad(m0, m1)
        s = F.heap(m0, sizes)
        for n, t in iters:
            F.iter(s, '@' + n, t, m0)
        for n, v in (ints or {}).items():
            s.mem[('@' + n, 0)] = v
        a = [('p', x if x in m0.roots else '@' + x, 0) for x in args]
        try:
            outs = F.run(op, a, s, (lambda q: q in ('w::val::val', 'w::val::operator=')) if throws else (lambda q: False))
        except Limit as e:
            self.limit('put', op, shape, e)
            return
        for kind, v, o in outs:
            out = Out(F, kind, o, m0)
            before = len(self.ck.findings)
            probs = []
            for k, w in out.bad:
                probs.append(('own' if k != 'terminate' else 'own', w))
            if kind == 'stop':
                continue_ = True
            bind = {}
            if kind == 'ret':
                w = links_match(F, o, m1, m0, bind)
                if w:
                    probs.append(('put', w))
                if res is not None:
                    r = F.get_iter(o, '@r')
                    e = (F.node(bind.get(res[0], res[0]), m1.roots), int(res[1] == L))
                    if r != e:
                        probs.append(('put', 'the result is at %s, %s is expected' % (
                            '%s.%s' % (show(r[0]), 'L' if r[1] == 1 else 'T' if r[1] == 0 else '?'), short(res))))
                d = sorted(out.deleted)
                if d != sorted(set(d)):
                    probs.append(('own', 'a node is deleted twice'))
                for n in set(d) - set(gone):
                    probs.append(('own', 'node %s is deleted' % ('that is part of a forest' if not n.startswith('new') else 'that was just made')))
                for n in set(gone) - set(d):
                    probs.append(('own', 'a node that was taken out is not deleted'))
                for w in out.lost(set(bind.values()) | (m1.nodes() - set(gone)) | m1.roots):
                    probs.append(('own', w))
                for n in set(bind.values()):
                    if (n, F.data) not in out.live:
                        probs.append(('own', 'a new node has no value'))
                for n, x in (values or {}).items():
                    if n in bind and out.ident.get((bind[n], F.data)) != x:
                        probs.append(('put', 'a new node does not have the value that it was given'))
                self.sizes(o, want, probs)
            elif kind == 'unwind':
                if unwound not in ('any', 'skip'):
                    w = links_match(F, o, unwound or m0, m0, bind)
                    if w:
                        probs.append(('put', 'after an exception: ' + w))
                    self.sizes(o, truth or sizes, probs, ' after an exception')
                if out.deleted and any(not x.startswith('new') for x in out.deleted):
                    probs.append(('own', 'an exception deletes a node'))
                keep = m0.nodes() | (reached(F, o, 'f', m0) if unwound == 'any' else set())
                for w in [] if unwound == 'skip' else out.lost(keep):
                    probs.append(('own', 'after an exception: ' + w))
            if probs and out.out:
                self.undecided += 1
                continue
            for k, w in probs:
                self.fail(k, op, w, shape)

    def ask(self, op, shape, m, args, sizes, want, iters=(), ints=None, kind='put', how='the result'):
        """an operation that changes nothing; want(object r after) -> what is wrong, or None"""
        F = self.F
        self.ck.inst((op[3:] if op.startswith('op_') else op).replace('_', '-'), shape)
        if op in self.failed:
            return
        m, _ = pad(m, m)
        s = F.heap(m, sizes)
        for n, t in iters:
            F.iter(s, '@' + n, t, m)
        try:
            outs = F.run(op, [('p', x if x in m.roots else '@' + x, 0) for x in args], s)
        except Limit as e:
            self.limit(kind, op, shape, e)
            return
        for k, v, o in outs:
            out = Out(F, k, o, m)
            w = 'the program ends' if k != 'ret' else out.bad[0][1] if out.bad else links_match(F, o, m, m, {}) or want(o)
            if w and out.out:
                self.undecided += 1
            elif w:
                self.fail(kind, op, w, shape)

    def sizes(self, o, want, probs, when=''):
        for f, z in want.items():
            v = o.mem.get((f, self.F.y.size))
            if v != 0 and lin(v) != lin(z):
                probs.append(('size', 'the size of the forest%s becomes %s, %s is expected' % (when, ex(v), ex(z))))


def reached(F, s, f, m):
    """the nodes that are found from the root of a forest"""
    n, e, out = F.node(f, m.roots), L, set()
    for _ in range(60):
        x = s.mem.get((n[1], n[2] + F.off[(e, 'next')]))
        if not isinstance(x, tuple) or x[0] != 'p':
            break
        if e == L:
            e = L if x != n else T
        else:
            e = L if s.mem.get((x[1], x[2] + F.off[(L, 'prior')])) == n else T
        n = x
        out.add(n[1])
        if n == F.node(f, m.roots):
            break
    return out


def ex(v):
    if isinstance(v, int) or v is None:
        return str(v)
    if v[0] == 'l':
        t = ' + '.join(('%d*' % k if k != 1 else '') + s for s, k in v[1])
        return t + (' %+d' % v[2] if v[2] else '')
    return str(v[1])


N, M, K = ('s', 'N'), ('s', 'M'), ('s', 'K')


def check_local(J):
    """operations at one place, whatever the rest of the forest is"""
    for root in (None, 'f'):
        for d, ch, pv, pos in positions('', root):
            empty = root and d == 'no children'
            for z in ([0] if empty else [N, 0]):
                m = Model()
                for c in ch:
                    m.seq(*c)
                if root:
                    m.root('f')
                sh = '%s%s, size %s' % (d, ' of the root' if root else '', ex(z))
                m1 = m.copy()
                m1.insert('+', pos)
                tr = 0 if empty else N
                w = ladd(tr, 1)
                J.op('op_insert', sh, m, m1, ['r', 'f', 'p', 'v'], {'f': z}, {'f': w}, [('p', pos)], ('+', L), values={'+': 'v'}, truth={'f': tr})
                if root and d != 'last child':
                    J.op('op_push_front', sh, m, m1, ['f', 'v'], {'f': z}, {'f': w}, values={'+': 'v'}, truth={'f': tr})
                if root and d != 'first child':
                    J.op('op_push_back', sh, m, m1, ['f', 'v'], {'f': z}, {'f': w}, values={'+': 'v'}, truth={'f': tr})
                if not root and d in ('first child', 'no children'):
                    for e in (L, T):
                        J.op('op_child_push_front', sh + ', ' + e, m, m1, ['f', 'p', 'v'], {'f': z}, {'f': w}, [('p', (pv[0], e))], values={'+': 'v'}, truth={'f': tr})
                if not root and d in ('last child', 'no children'):
                    for e in (L, T):
                        J.op('op_child_push_back', sh + ', ' + e, m, m1, ['f', 'p', 'v'], {'f': z}, {'f': w}, [('p', (pos[0], e))], values={'+': 'v'}, truth={'f': tr})
                # an empty range gets an empty parent
                J.op('op_insert_parent', 'empty range, ' + sh, m, m1, ['r', 'f', 'a', 'b', 'v'], {'f': z}, {'f': w}, [('a', pos), ('b', pos)],
                     ('+', L), values={'+': 'v'}, truth={'f': tr})
                J.op('op_reverse', 'empty range, ' + sh, m, m, ['f', 'a', 'b'], {'f': z}, {'f': tr}, [('a', pos), ('b', pos)])
        for d, ch, first, last, cnt in ranges('', root):
            X = first[0]
            lt = ch[0][0]
            for z in (N, 0):
                tr = N
                m = Model()
                for c in ch:
                    m.seq(*c)
                if root:
                    m.root('f')
                sh = '%s%s, size %s' % (d, ' of the root' if root else '', ex(z))
                m1 = m.copy()
                a, y = m1.prev(first), m1.prev(last)
                m1.nxt[a] = ('+', L)
                m1.nxt[('+', L)] = first
                m1.nxt[y] = ('+', T)
                m1.nxt[('+', T)] = last
                J.op('op_insert_parent', sh, m, m1, ['r', 'f', 'a', 'b', 'v'], {'f': z}, {'f': ladd(N, 1)}, [('a', first), ('b', last)],
                     ('+', L), values={'+': 'v'}, truth={'f': tr})
                if 'one' not in d:
                    continue
                # the node X is erased: its children take its place
                ms = [m]
                if cnt is None:
                    ms = []
                    for kid in ('one child', 'several children'):
                        m2 = Model().seq(lt, (X, L), ('C', L)).seq(('C' if kid == 'one child' else 'D', T), (X, T), last)
                        if root:
                            m2.root('f')
                        ms.append(m2)
                for m2 in ms:
                    for e in (L, T):
                        m1 = m2.copy()
                        after = m2.nxt[(X, e)]
                        if after == (X, T):
                            after = m2.nxt[(X, T)]
                        m1.erase(X)
                        s2 = sh + ', at ' + e
                        J.op('op_erase', s2, m2, m1, ['r', 'f', 'p'], {'f': z}, {'f': ladd(N, -1)}, [('p', (X, e))], after, gone=[X])
                    if root and lt == (root, L):
                        J.op('op_pop_front', sh, m2, m1, ['f'], {'f': z}, {'f': ladd(N, -1)}, gone=[X])
                    if root and last == (root, T):
                        J.op('op_pop_back', sh, m2, m1, ['f'], {'f': z}, {'f': ladd(N, -1)}, gone=[X])
                    if not root:
                        for e in (L, T):
                            if lt[1] == L:
                                J.op('op_child_pop_front', sh + e, m2, m1, ['f', 'p'], {'f': z}, {'f': ladd(N, -1)}, [('p', (lt[0], e))], gone=[X])
                            if last[1] == T:
                                J.op('op_child_pop_back', sh + e, m2, m1, ['f', 'p'], {'f': z}, {'f': ladd(N, -1)}, [('p', (last[0], e))], gone=[X])
        # reversal of one to three siblings, leaves or not
        for n in (1, 2, 3):
            for leafs in itertools.product((0, 1), repeat=n):
                for lt in ((root or 'V', L), ('W', T)):
                    for rt in (('Z', L), (root or 'V', T)):
                        if root and root not in (lt[0], rt[0]):
                            continue
                        xs = ['X%d' % i for i in range(n)]
                        seq = [lt]
                        for x, lf in zip(xs, leafs):
                            seq += [(x, L), (x, T)] if lf else [(x, L), None, (x, T)]
                        m = Model().seq(*(seq + [rt]))
                        m1 = m.copy()
                        if root:
                            m.root('f')
                            m1.root('f')
                        m1.nxt[lt] = (xs[-1], L)
                        for x, w in zip(xs[1:], xs):
                            m1.nxt[(x, T)] = (w, L)
                        m1.nxt[(xs[0], T)] = rt
                        J.op('op_reverse', '%d siblings %s from %s to %s' % (n, leafs, short(lt), short(rt)), m, m1, ['f', 'a', 'b'], {'f': N}, {'f': N},
                             [('a', (xs[0], L)), ('b', rt)])


def ends(m, f):
    return m.nxt.get((f, L)) == (f, T)


def whole(m, f, first, last):
    return last == (f, T) and m.nxt.get((f, L)) == first and first != last


def check_splice(J):
    def go(op, sh, m, src, pos, first, last, it, z, zg, cnt, ints=None, args=()):
        m1 = m.copy()
        m1.splice(first, last, pos)
        same = src == 'f'
        moved = first != last and pos not in (first, last)
        k = cnt
        tf = z if isinstance(z, int) and first == last and z == 0 and ends(m, 'f') else 0 if z == 'empty' else N
        tg = 0 if ends(m, 'g') else cnt if whole(m, 'g', first, last) and isinstance(cnt, int) else M
        if same or first == last:
            want = {'f': tf}
            if src == 'g':
                want['g'] = tg
        else:
            want = {'f': ladd(tf, k), 'g': 0 if whole(m, 'g', first, last) else ladd(tg, ladd(0, k, -1))}
        sizes = {'f': 0 if z == 'empty' else z}
        if src == 'g':
            sizes['g'] = zg
        res = first if first != last and pos != last else None
        if first == last:
            res = pos
        J.op(op, sh, m, m1, ['r', 'f', 'p', src] + list(args), sizes, want, it, res, ints=ints, throws=False)

    for src in ('g', 'f'):
        for sroot in (None, src):
            for droot in (None, 'f'):
                if src == 'f' and sroot and droot:
                    continue
                for d, ch, first, last, cnt in ranges('', sroot):
                    dst = [(pd, pc, pos) for pd, pc, pv, pos in positions('d', droot)]
                    if src == 'f' and droot is None:
                        dst += adjacent(ch[0], first, last, sroot)
                    for pd, pc, pos in dst:
                        m = Model()
                        for c in list(ch) + list(pc):
                            m.seq(*c)
                        if sroot:
                            m.root(sroot)
                        if droot:
                            m.root(droot)
                        empty = droot and pd == 'no children'
                        if empty and src == 'f':
                            continue
                        for z in (['empty'] if empty else [N, 0]):
                            for zg in ([None] if src == 'f' else [M, 0]):
                                sh = '%s%s into %s%s, %s, sizes %s and %s' % (
                                    d, ' of the root' if sroot else '', pd, ' of the root' if droot else '',
                                    'same forest' if src == 'f' else 'other forest', ex(z) if z != 'empty' else 0, ex(zg))
                                k = cnt or (M if whole(m, 'g', first, last) else K)
                                if zg == M and whole(m, 'g', first, last) and cnt:
                                    zg = cnt
                                it = [('p', pos), ('a', first), ('b', last)]
                                go('op_splice_range', sh, m, src, pos, first, last, it, z, zg, k, args=['a', 'b'])
                                go('op_splice_count', sh + ', count known', m, src, pos, first, last, it, z, zg, k, ints={'n': k}, args=['a', 'b', 'n'])
                                go('op_splice_count', sh + ', count 0', m, src, pos, first, last, it, z, zg, k, ints={'n': 0}, args=['a', 'b', 'n'])
                                if 'one' in d:
                                    for e in (L, T):
                                        go('op_splice_one', sh + ' ' + e, m, src, pos, first, last, [('p', pos), ('q', (first[0], e))], z, zg, k, args=['q'])
                                if src == 'g' and sroot and ch[0][0] == ('g', L) and last == ('g', T):
                                    go('op_splice_all', sh, m, src, pos, first, last, it[:1], z, zg, cnt or M)
                # an empty range
                if src == 'g':
                    for d, ch, pv, last in positions('s', sroot):
                        for pd, pc, pv2, pos in positions('d', droot):
                            m = Model()
                            for c in list(ch) + list(pc):
                                m.seq(*c)
                            if sroot:
                                m.root(sroot)
                            if droot:
                                m.root(droot)
                            e1, e2 = droot and pd == 'no children', sroot and d == 'no children'
                            z, zg = 0 if e1 else N, 0 if e2 else M
                            sh = 'empty range, %s%s into %s%s' % (d, ' of the root' if sroot else '', pd, ' of the root' if droot else '')
                            it = [('p', pos), ('a', last), ('b', last)]
                            go('op_splice_range', sh, m, src, pos, last, last, it, z, zg, 0, args=['a', 'b'])
                            go('op_splice_count', sh, m, src, pos, last, last, it, z, zg, 0, ints={'n': 0}, args=['a', 'b', 'n'])
                            if e2:
                                go('op_splice_all', sh, m, src, pos, last, last, it[:1], z, zg, 0)


def adjacent(ch, first, last, sroot):
    """places in the same forest that share nodes with the range or touch it"""
    lt, rt = ch[0], ch[-1]
    out = [('the range itself', [], first), ('just after the range', [], rt)]
    if sroot != lt[0]:
        for p in (('a', T), ('b', L) if lt[1] == L else (lt[0], L)):
            out.append(('the edge before the range', [(p, lt)], lt))
    if rt[1] == L:
        out.append(('a leaf after the range', [(rt, (rt[0], T))], (rt[0], T)))
        out.append(('first child of the node after', [(rt, ('c', L))], ('c', L)))
        out.append(('last child of the node after', [(('c', T), (rt[0], T))], (rt[0], T)))
        out.append(('after the node after', [((rt[0], T), ('c', L))], ('c', L)))
        if lt[1] == L:
            out.append(('end of the parent', [((rt[0], T), lt[:1] + (T,))], (lt[0], T)))
            out.append(('end of the parent, far', [(('c', T), lt[:1] + (T,))], (lt[0], T)))
    elif sroot != rt[0]:
        out.append(('after the parent', [(rt, ('c', L))], ('c', L)))
        out.append(('end of the grandparent', [(rt, ('c', T))], ('c', T)))
        if lt[1] != L:
            out.append(('start of the parent', [((rt[0], L), (lt[0], L))], (lt[0], L)))
            out.append(('start of the parent, far', [((rt[0], L), ('c', L))], ('c', L)))
    if lt[1] == T:
        out.append(('before the node before', [(('c', T), (lt[0], L))], (lt[0], L)))
        out.append(('first child of the node before', [((lt[0], L), ('c', L))], ('c', L)))
    return out


def root_shapes(f='f'):
    """whole forests with whatever inside: (description, model, size or None if any)"""
    m = Model(('f', 'g', 'h')).seq((f, L), (f, T)).root(f)
    yield 'empty', m, 0
    X, Y = f + 'X', f + 'Y'
    yield 'one leaf', Model(('f', 'g', 'h')).seq((f, L), (X, L), (X, T), (f, T)).root(f), 1
    yield 'one node with children', Model(('f', 'g', 'h')).seq((f, L), (X, L), None, (X, T), (f, T)).root(f), None
    yield 'several nodes', Model(('f', 'g', 'h')).seq((f, L), (X, L), None, (Y, T), (f, T)).root(f), None


def empty_root(m, f):
    m.nxt[(f, L)] = (f, T)
    m.nxt[(f, T)] = (f, L)


def take(m, f, g, frm):
    """the content of f (in frm) becomes the content of g (in m)"""
    a, z = frm.nxt[(f, L)], frm.prev((f, T))
    empty_root(m, g)
    if a != (f, T):
        m.nxt[(g, L)] = a
        m.nxt[z] = (g, T)


def check_whole(J, most):
    R = ('f', 'g', 'h')
    m = Model(R)
    m1 = Model(R)
    empty_root(m1, 'h')
    J.op('op_default', 'new', m, m1, ['h'], {}, {'h': 0})
    for d, m, n in root_shapes():
        for z in ([n] if n == 0 else [n or N, 0]):
            sh = '%s, size %s' % (d, ex(z))
            m1 = m.copy()
            take(m1, 'f', 'h', m)
            empty_root(m1, 'f')
            tr = N if n is None else n
            J.op('op_move', sh, m, m1, ['h', 'f'], {'f': z}, {'f': 0, 'h': tr})
            for d2, g, n2 in root_shapes('g'):
                zg = M if n2 is None else n2
                m0 = m.copy()
                m0.nxt.update(g.nxt)
                m1 = m0.copy()
                take(m1, 'f', 'g', m0)
                take(m1, 'g', 'f', m0)
                J.op('op_swap', sh + ' with ' + d2, m0, m1, ['f', 'g'], {'f': z, 'g': zg}, {'f': zg, 'g': tr})
                if n is None or z == N:
                    continue
                m1 = m0.copy()
                for x in m.nodes() - m.roots:
                    for e in (L, T):
                        del m1.nxt[(x, e)]
                take(m1, 'g', 'f', m0)
                empty_root(m1, 'g')
                J.op('op_move_assign', sh + ' = ' + d2, m0, m1, ['f', 'g'], {'f': z, 'g': zg}, {'f': zg, 'g': 0}, gone=m.nodes() - m.roots)
    names = ['n1', 'n2', 'n3', 'n4', 'n5']
    gn = ['k1', 'k2', 'k3', 'k4']

    def plus(edges):
        return [('+' + n, e) for n, e in edges]
    for k in range(most + 1):
        for edges in trees(k, names):
            sh0 = ' '.join(short(e) for e in edges) or 'empty'
            vals = {'+' + n: 'v:' + n for n in names}
            for z in {k, 0}:
                sh = sh0 + ', size %s' % z
                m = full(Model(R), 'f', edges)
                e = full(Model(R), 'f', [])
                all_ = m.nodes() - m.roots
                J.op('op_clear', sh, m, e, ['f'], {'f': z}, {'f': 0}, gone=all_)
                J.op('op_destroy', sh, m, Model(R), ['f'], {'f': z}, {}, gone=all_)
                m1 = m.copy()
                full(m1, 'h', plus(edges))
                J.op('op_copy', sh, m, m1, ['h', 'f'], {'f': z}, {'f': k, 'h': k}, values=vals, unwound='any')
                J.ask('op_size', sh, m, ['r', 'f'], {'f': z}, lambda o: None if o.mem.get(('@r', 0)) == k else '%s is given, %d is right' % (
                    ex(o.mem.get(('@r', 0))), k), kind='size')
                # every range between two edges
                pos = edges + [('f', T)]
                for i in range(len(pos)):
                    for j in range(i, len(pos)):
                        inn = pos[i:j]
                        gone = {n for n, e in inn if e == L and (n, T) in inn}
                        m1 = m.copy()
                        for n in gone:
                            m1.erase(n)
                        J.op('op_erase_range', sh + ', %s to %s' % (short(pos[i]), short(pos[j])), m, m1, ['r', 'f', 'p', 'q'], {'f': z},
                             {'f': k - len(gone)}, [('p', pos[i]), ('q', pos[j])], pos[j], gone=gone)
                if k == most and most > 2:
                    continue
                # a copy put into another forest, and assigned to another forest
                for droot in (None, 'f'):
                    for pd, pc, pv, p in positions('d', droot):
                        g = full(Model(R), 'g', edges)
                        for c in pc:
                            g.seq(*c)
                        if droot:
                            g.root('f')
                        none = droot and pd == 'no children'
                        zf = 0 if none else N
                        g1 = g.copy()
                        q = pv
                        for x in plus(edges):
                            g1.nxt[q] = x
                            q = x
                        g1.nxt[q] = p
                        J.op('op_insert_range', sh + ' into ' + pd + (droot or ''), g, g1, ['r', 'f', 'p', 'a', 'b'], {'f': zf, 'g': z},
                             {'f': k if none else ladd(N, k), 'g': k}, [('p', p), ('a', g.nxt[('g', L)]), ('b', ('g', T))], values=vals,
                             unwound='any' if none else 'skip')
                for d, x, n in root_shapes('f'):
                    if n is None:
                        continue
                    g = full(x.copy(), 'g', edges)
                    g1 = g.copy()
                    for y in x.nodes() - x.roots:
                        for e in (L, T):
                            del g1.nxt[(y, e)]
                    full(g1, 'f', plus(edges))
                    J.op('op_copy_assign', sh + ' to ' + d, g, g1, ['f', 'g'], {'f': n, 'g': z}, {'f': k, 'g': k}, values=vals, gone=x.nodes() - x.roots)
            # equality: the same shape, and other shapes of the same size or of another size
            if k <= 2:
                for k2 in range(3):
                    for e2 in trees(k2, gn):
                        m = full(full(Model(R), 'f', edges), 'g', e2)
                        like = [(names.index(a), b) for a, b in edges] == [(gn.index(a), b) for a, b in e2]
                        for op, neg in (('op_equal', 0), ('op_not_equal', 1)):
                            def want(o):
                                differ = any(v and c == ('s', ) for c, v in o.facts.items())
                                r = o.mem.get(('@r', 0))
                                asked = [(a, o.facts.get(('s', r0))) for a, r0 in tests(o)]
                                same = like and not any(v for a, v in asked)
                                if like and same and {a for a, v in asked} != {(('p', names[i], J.F.data), ('p', gn[i], J.F.data)) for i in range(k)}:
                                    return 'not all values are compared'
                                if r != int(same) ^ neg:
                                    return '%s is given for forests that %s' % ('true' if r else 'false', 'are the same' if same else 'differ')
                            J.ask(op, sh0 + ' and ' + ' '.join(short(e) for e in e2), m, ['r', 'f', 'g'], {'f': k, 'g': k2}, want)


def siblings(es, f):
    """every range of siblings of a whole forest, also empty ones: (first, last)"""
    pos = es + [(f, T)]
    par, out = {}, []
    st = [f]
    kids = {f: []}
    for n, e in es:
        if e == L:
            kids[st[-1]].append(n)
            kids[n] = []
            st.append(n)
        else:
            st.pop()
    for p, ks in kids.items():
        places = [(k, L) for k in ks] + [(p, T)]
        for a in range(len(places)):
            for b in range(a, len(places)):
                out.append((places[a], places[b], b - a))
    return out


def under(es, first, last):
    """the edges of a range"""
    if first == last:
        return []
    i = es.index(first)
    out = []
    for x in es[i:]:
        if x == last:
            break
        out.append(x)
    return out


def check_small(J, most, splice):
    """the same operations on small whole forests, where nothing is left open"""
    names = ['n1', 'n2', 'n3', 'n4', 'n5']
    gn = ['k1', 'k2', 'k3', 'k4']
    A = ['r', 'f', 'p']
    for k in range(most + 1):
        for es in trees(k, names):
            m = full(Model(), 'f', es)
            pos = es + [('f', T)]
            sh = ' '.join(short(e) for e in es) or 'empty'
            for z in {k, 0}:
                zs = ', size %s' % z
                for p in pos if k <= 3 else []:
                    m1 = m.copy()
                    m1.insert('+', p)
                    J.op('op_insert', '%s at %s%s' % (sh, short(p), zs), m, m1, A + ['v'], {'f': z}, {'f': k + 1}, [('p', p)], ('+', L), values={'+': 'v'},
                         truth={'f': k})
                for n, e in es if k <= 3 else []:
                    m1 = m.copy()
                    after = m.nxt[(n, e)]
                    if after == (n, T):
                        after = m.nxt[after]
                    m1.erase(n)
                    J.op('op_erase', '%s at %s.%s%s' % (sh, n, e, zs), m, m1, A, {'f': z}, {'f': k - 1}, [('p', (n, e))], after, gone=[n])
                for a, b, c in siblings(es, 'f'):
                    s2 = '%s, %s to %s%s' % (sh, short(a), short(b), zs)
                    inn = under(es, a, b)
                    if k <= 3:
                        m1 = m.copy()
                        p0, y = m1.prev(a), m1.prev(b)
                        if a == b:
                            m1.insert('+', a)
                        else:
                            m1.nxt[p0], m1.nxt[('+', L)], m1.nxt[y], m1.nxt[('+', T)] = ('+', L), a, ('+', T), b
                        J.op('op_insert_parent', s2, m, m1, ['r', 'f', 'a', 'b', 'v'], {'f': z}, {'f': k + 1}, [('a', a), ('b', b)], ('+', L),
                             values={'+': 'v'}, truth={'f': k})
                    m1 = m.copy()
                    at = a
                    x = a
                    while x != b:
                        y = (x[0], T)
                        nx = m.nxt[y]
                        m1.splice(x, nx, at)
                        at = x
                        x = nx
                    J.op('op_reverse', s2, m, m1, ['f', 'a', 'b'], {'f': z}, {'f': k}, [('a', a), ('b', b)])
                    if not splice or k > 3:
                        continue
                    for p in pos:
                        if p in inn and p != a:
                            continue
                        m1 = m.copy()
                        m1.splice(a, b, p)
                        J.op('op_splice_range', s2 + ' to ' + short(p), m, m1, ['r', 'f', 'p', 'f', 'a', 'b'], {'f': z}, {'f': k},
                             [('p', p), ('a', a), ('b', b)], p if a == b else a if p != b else None, throws=False)
                        if c == 1:
                            J.op('op_splice_one', s2 + ' to ' + short(p), m, m1, ['r', 'f', 'p', 'f', 'q'], {'f': z}, {'f': k},
                                 [('p', p), ('q', a)], a if p != b else None, throws=False)
                    if k > 2:
                        continue
                    for k2 in range(3):
                        for e2 in trees(k2, gn):
                            for p in e2 + [('g', T)]:
                                m0 = full(m.copy(), 'g', e2)
                                m1 = m0.copy()
                                m1.splice(a, b, p)
                                n = len(inn) // 2
                                for zg in {k2, 0}:
                                    s3 = '%s to %s, size %s' % (s2, short(p), zg)
                                    it = [('p', p), ('a', a), ('b', b)]
                                    w = {'g': k2 + n, 'f': k - n}
                                    J.op('op_splice_range', s3, m0, m1, ['r', 'g', 'p', 'f', 'a', 'b'], {'f': z, 'g': zg}, w, it, p if a == b else a, throws=False)
                                    for cnt in {0, n}:
                                        J.op('op_splice_count', s3 + ' count %d' % cnt, m0, m1, ['r', 'g', 'p', 'f', 'a', 'b', 'n'], {'f': z, 'g': zg}, w, it,
                                             p if a == b else a, ints={'n': cnt}, throws=False)
                                    if c == 1:
                                        J.op('op_splice_one', s3, m0, m1, ['r', 'g', 'p', 'f', 'q'], {'f': z, 'g': zg}, w, [('p', p), ('q', a)], a, throws=False)
                                    if n == k:
                                        J.op('op_splice_all', s3, m0, m1, ['r', 'g', 'p', 'f'], {'f': z, 'g': zg}, w, it[:1], p if a == b else a, throws=False)


def tests(o):
    """comparisons of two values: ((a, b), name of the result)"""
    out = []
    for e in o.ev:
        if e[0] == 'user' and e[1].endswith('operator!=') and len(e) > 4:
            out.append((tuple(e[2]), e[4]))
    return out


# -------------------------------------------------------------------- iterators
def pad(m0, m1):
    """gives every edge of the nodes in a heap a neighbour, so that reading around an operation stays inside of the heap"""
    a, b = m0.copy(), m1.copy()
    prv = set(m0.nxt.values())

    def both(x, y):
        a.nxt[x] = y
        b.nxt[x] = y
    for n in sorted(m0.nodes() - m0.roots):
        if (n, L) not in m0.nxt:
            both((n, L), (n + '>', L))
        if (n, L) not in prv:
            both((n + '<', T), (n, L))
        if (n, T) not in m0.nxt:
            both((n, T), (n + '>>', L))
        if (n, T) not in prv:
            both((n + '<<', T), (n, T))
    return a, b


def flip(t):
    return (t[0], T if t[1] == L else L)


def steps():
    """an edge and the edge after it, in every neighbourhood: (description, model, edge, edge after)"""
    for root in (None, 'f'):
        for d, ch, a, b in positions('', root):
            m = Model(('f',))
            for c in ch:
                m.seq(*c)
            if root:
                m.root('f')
            yield d + (' of the root' if root else ''), m, a, b


def runs_of(e):
    """an edge e, edges of the other kind, and the next edge e: (description, model, first, last)"""
    o = T if e == L else L
    for k in range(4):
        for root in (None, 'f'):
            # e = L: X.L [X.T U.T ..] B.L; the first of several trailing edges is that of a leaf X
            if e == L:
                ns = ['X'] + ['U%d' % i for i in range(1, k)]
                seq = [('X', L)] + [(n, T) for n in ns[:k]] + [('B', L)]
                if root:
                    if k == 0:
                        seq = [('f', L), ('B', L)]
                    else:
                        seq = [('X', L)] + [(n, T) for n in ns[:k]] + [('f', T), ('f', L)]
            else:
                ns = ['U%d' % i for i in range(1, k)] + ['X']
                seq = [('A', T)] + [(n, L) for n in ns[len(ns) - k:]] + [('X', T)]
                if root:
                    if k == 0:
                        seq = [('A', T), ('f', T)]
                    else:
                        seq = [('f', T), ('f', L)] + [(n, L) for n in ns[len(ns) - k:]] + [('X', T)]
            m = Model(('f',)).seq(*seq)
            if root:
                m.root('f')
            yield ' '.join(short(t) for t in seq), m, seq[0], seq[-1]


class Walk:
    """one kind of iterator, made from, and read through, its base"""

    def __init__(self, J, kind):
        self.J, self.F, self.k = J, J.F, kind

    def do(self, s, fn, *args):
        """-> the states that it can end in normally"""
        try:
            r = self.F.run(fn, [('p', a, 0) for a in args], s)
        except Limit:
            raise Bad('%s does not end' % fn)
        out = []
        for k, v, o in r:
            if k != 'ret':
                raise Bad('%s does not return' % fn)
            if any(e[0] in ('dead', 'null') for e in o.ev):
                raise Bad('%s uses what is no node' % fn)
            out.append(o)
        return out

    def one(self, s, fn, *args):
        r = self.do(s, fn, *args)
        if len(r) != 1:
            raise Bad('%s depends on something unknown' % fn)
        return r[0]

    def make(self, s, name, t, m):
        F = self.F
        if self.k == 'it':
            F.iter(s, name, t, m)
            return s
        F.iter(s, name + '_b', t, m)
        return self.one(s, self.k + '_from', name, name + '_b')

    def base(self, s, name):
        F = self.F
        if self.k in ('it', 'cit'):
            return s, F.get_iter(s, name)
        s = self.one(s, self.k + '_base', name + '_r', name)
        return s, F.get_iter(s, name + '_r')

    def is_at(self, s, name, t, m, what):
        s, b = self.base(s, name)
        e = (self.F.node(t[0], m.roots), int(t[1] == L))
        if b != e:
            raise Bad('%s is at %s.%s, %s is expected' % (what, show(b[0]), 'L' if b[1] == 1 else 'T' if b[1] == 0 else '?', short(t)))
        return s

    def truth(self, s, op, x, y, want, what):
        s = self.one(s, self.k + '_' + op, '@t', x, y)
        if s.mem.get(('@t', 0)) != want:
            raise Bad('%s of %s is %s' % ({'eq': '==', 'ne': '!='}[op], what, bool(s.mem.get(('@t', 0)))))
        return s

    def step(self, sh, m, a, b, value=True, at=None):
        """++ leads from a to b, -- back"""
        J, F = self.J, self.F
        J.ck.inst(self.k, sh)
        try:
            s = self.make(F.heap(m, {}), '@x', a, m)
            s = self.is_at(s, '@x', a, m, 'a new iterator')
            s = self.one(s, self.k + '_copy', '@c', '@x')
            s = self.truth(s, 'eq', '@c', '@x', 1, 'an iterator and its copy')
            s = self.truth(s, 'ne', '@c', '@x', 0, 'an iterator and its copy')
            n = at or a
            if n[0] not in m.roots:
                s = self.one(s, self.k + '_at', '@v', '@x')
                if s.mem.get(('@v', 0)) != ('p', n[0], F.data):
                    raise Bad('* gives the value of another node')
            s = self.one(s, self.k + '_inc', '@x')
            s = self.is_at(s, '@x', b, m, 'after ++, an iterator')
            s = self.is_at(s, '@c', a, m, 'after ++, a copy')
            s = self.truth(s, 'eq', '@c', '@x', 0, 'an iterator and the next one')
            s = self.truth(s, 'ne', '@c', '@x', 1, 'an iterator and the next one')
            s = self.make(s, '@y', b, m)
            s = self.truth(s, 'eq', '@x', '@y', 1, 'iterators at the same place, one after ++')
            s = self.one(s, self.k + '_dec', '@x')
            s = self.is_at(s, '@x', a, m, 'after ++ and --, an iterator')
            s = self.truth(s, 'eq', '@x', '@c', 1, 'iterators at the same place, one after ++ and --')
            s = self.one(s, self.k + '_dec', '@y')
            s = self.is_at(s, '@y', a, m, 'after --, an iterator')
            s = self.one(s, self.k + '_inc_post', '@o', '@c')
            s = self.is_at(s, '@o', a, m, 'the result of x++')
            s = self.is_at(s, '@c', b, m, 'after x++, an iterator')
            s = self.one(s, self.k + '_dec_post', '@o', '@c')
            s = self.is_at(s, '@o', b, m, 'the result of x--')
            s = self.is_at(s, '@c', a, m, 'after x--, an iterator')
            return s
        except Bad as e:
            J.fail('walk', 'op_' + self.k, str(e), sh)
        except Limit as e:
            J.fail('walk', 'op_' + self.k, 'does not end', sh)
        return None


class Bad(Exception):
    pass


def check_iterators(J, most):
    F = J.F
    for sh, m, a, b in steps():
        # full order; the const iterator is made from the other one
        Walk(J, 'it').step(sh, m, a, b)
        Walk(J, 'cit').step(sh, m, a, b)
        for k in ('rev', 'crev'):
            w = Walk(J, k)
            # the reverse iterator at b stands for the edge before it
            if b != ('f', L):
                m2 = m.copy()
                if flip(a) not in m2.nxt and a[0] not in m.roots:
                    m2.seq(flip(a), ('Q', L))
                reverse_step(J, w, sh, m2, a, b)
        for k in ('depth', 'cdepth'):
            w = Walk(J, k)
            s = w.step(sh, m, a, b)
            if s is None:
                continue
            try:
                s = w.make(F.heap(m, {}), '@x', a, m)
                s = w.one(s, k + '_get', '@d', '@x')
                d0 = s.mem.get(('@d', 0))
                s = w.one(s, k + '_inc', '@x')
                s = w.one(s, k + '_get', '@d', '@x')
                want = ladd(d0, 1 if a[1] == b[1] == L else -1 if a[1] == b[1] == T else 0)
                if s.mem.get(('@d', 0)) != want:
                    raise Bad('++ from %s to %s makes the depth %s, %s is right' % (a[1], b[1], ex(s.mem.get(('@d', 0))), ex(want)))
                s = w.one(s, k + '_dec', '@x')
                s = w.one(s, k + '_get', '@d', '@x')
                if s.mem.get(('@d', 0)) != d0:
                    raise Bad('-- from %s to %s makes the depth %s, %s is right' % (b[1], a[1], ex(s.mem.get(('@d', 0))), ex(d0)))
            except Bad as e:
                J.fail('walk', 'op_' + k, str(e), sh)
    # children: from a node to its next sibling or to the end of its parent
    for root in (None, 'f'):
        for body in ('leaf', 'children'):
            for rt in (('B', L), (root or 'U', T)):
                m = Model(('f',))
                if body == 'leaf':
                    m.seq(('X', L), ('X', T), rt)
                else:
                    m.seq(('X', L), ('C', L)).seq(('D', T), ('X', T), rt)
                if root:
                    m.root('f')
                for k in ('child', 'cchild'):
                    Walk(J, k).step('%s before %s' % (body, short(rt)), m, ('X', L), rt)
    for k, e in (('pre', L), ('cpre', L), ('post', T), ('cpost', T)):
        for sh, m, a, b in runs_of(e):
            Walk(J, k).step(sh, m, a, b)
            # made at an edge of the other kind, it goes to the next one of its kind
            t = m.nxt[a]
            while t != b:
                w = Walk(J, k)
                try:
                    s = w.make(F.heap(m, {}), '@x', t, m)
                    w.is_at(s, '@x', b, m, 'a new iterator')
                except Bad as x:
                    J.fail('walk', 'op_' + k, str(x), sh)
                t = m.nxt[t]
    # conversions keep the place
    for sh, m, a, b in steps():
        for k, c in (('child', 'cchild'), ('pre', 'cpre'), ('post', 'cpost'), ('rev', 'crev')):
            if k == 'pre' and b[1] != L or k == 'post' and b[1] != T or k == 'child' and b == ('f', L):
                continue
            try:
                s = Walk(J, k).make(F.heap(m, {}), '@x', b, m)
                s = Walk(J, c).one(s, c + '_conv', '@y', '@x')
                Walk(J, c).is_at(s, '@y', b, m, 'after the conversion, an iterator')
            except Bad as x:
                J.fail('walk', 'op_%s_conv' % c, str(x), sh)
    queries(J)
    passes(J, most)


def reverse_step(J, w, sh, m, a, b):
    """b comes after a. A reverse iterator made from b has the node and the turned edge of a; ++ leads it to base a"""
    F, k = J.F, w.k
    J.ck.inst(k, sh)
    try:
        s = w.make(F.heap(m, {}), '@x', b, m)
        s = w.is_at(s, '@x', b, m, 'the base of a new iterator')
        s = w.one(s, k + '_leading', '@l', '@x')
        if s.mem.get(('@l', 0)) != int(a[1] == T):
            raise Bad('the edge is not the turned edge of the place before its base')
        if a[0] not in m.roots:
            s = w.one(s, k + '_at', '@v', '@x')
            if s.mem.get(('@v', 0)) != ('p', a[0], F.data):
                raise Bad('* gives the value of another node')
        s = w.one(s, k + '_copy', '@c', '@x')
        s = w.truth(s, 'eq', '@c', '@x', 1, 'an iterator and its copy')
        # turned twice it is the same; turned once it differs
        s = w.one(s, k + '_flip', '@c')
        s = w.truth(s, 'eq', '@c', '@x', 0, 'an iterator and the one that is turned to the other edge')
        s = w.one(s, k + '_flip', '@c')
        s = w.truth(s, 'eq', '@c', '@x', 1, 'an iterator and the one that is turned twice')
        s = w.truth(s, 'ne', '@c', '@x', 0, 'an iterator and the one that is turned twice')
        # turned to the other edge of its node it equals the iterator that was made there
        o = m.nxt.get(flip(a))
        if o is not None and o != ('f', L) and a != ('f', L):
            s = w.one(s, k + '_flip', '@c')
            s = w.is_at(s, '@c', o, m, 'the base of a turned iterator')
            s = w.make(s, '@y', o, m)
            s = w.truth(s, 'eq', '@c', '@y', 1, 'a turned iterator and the one that was made there')
            s = w.truth(s, 'eq', '@y', '@c', 1, 'the iterator that was made at a place and the one that was turned to it')
        if m.prev(a) and a != ('f', L):
            s = w.one(s, k + '_inc_post', '@o', '@x')
            s = w.is_at(s, '@o', b, m, 'the base of the result of x++')
            s = w.is_at(s, '@x', a, m, 'after x++, the base')
            s = w.one(s, k + '_dec_post', '@o', '@x')
            s = w.is_at(s, '@o', a, m, 'the base of the result of x--')
            s = w.is_at(s, '@x', b, m, 'after x--, the base')
            s = w.one(s, k + '_inc', '@x')
            s = w.is_at(s, '@x', a, m, 'after ++, the base')
            s = w.make(s, '@y', a, m)
            s = w.truth(s, 'eq', '@x', '@y', 1, 'iterators at the same place, one after ++')
            s = w.one(s, k + '_dec', '@x')
            s = w.is_at(s, '@x', b, m, 'after --, the base')
    except Bad as e:
        J.fail('walk', 'op_' + k, str(e), sh)
    except Limit as e:
        J.fail('walk', 'op_' + k, 'does not end', sh)


def queries(J):
    F = J.F

    def at(t, m):
        def want(o):
            r = F.get_iter(o, '@r')
            if r != (F.node(t[0], m.roots), int(t[1] == L)):
                return 'gives %s.%s, %s is expected' % (show(r[0]), 'L' if r[1] == 1 else 'T' if r[1] == 0 else '?', short(t))
        return want

    def eq(v):
        return lambda o: None if o.mem.get(('@r', 0)) == v else 'gives %s, %s is expected' % (ex(o.mem.get(('@r', 0))), ex(v))
    W = 'walk'
    for root in (None, 'f'):
        U = root or 'U'
        sh = [('no children', Model(('f',)).seq((U, L), (U, T)), (U, T)),
              ('one child', Model(('f',)).seq((U, L), ('X', L)).seq(('X', T), (U, T)), ('X', L)),
              ('several children', Model(('f',)).seq((U, L), ('X', L)).seq(('Y', T), (U, T)), ('X', L))]
        for d, m, c in sh:
            if root:
                m.root('f')
                d += ' of the root'
            for e in (L, T):
                J.ask('op_has_children', d + e, m, ['r', 'p'], {}, eq(int(c[1] == L)), [('p', (U, e))], kind=W)
                J.ask('op_child_begin', d + e, m, ['r', 'p'], {}, at(c, m), [('p', (U, e))], kind=W)
                J.ask('op_child_end', d + e, m, ['r', 'p'], {}, at((U, T), m), [('p', (U, e))], kind=W)
                J.ask('op_range_begin', d + e, m, ['r', 'p'], {}, at(c, m), [('p', (U, e))], kind=W)
                J.ask('op_range_end', d + e, m, ['r', 'p'], {}, at((U, T), m), [('p', (U, e))], kind=W)
                J.ask('op_leading_of', d + e, m, ['r', 'p'], {}, at((U, L), m), [('p', (U, e))], kind=W)
                J.ask('op_trailing_of', d + e, m, ['r', 'p'], {}, at((U, T), m), [('p', (U, e))], kind=W)
                J.ask('op_pivot_of', d + e, m, ['r', 'p'], {}, at(flip((U, e)), m), [('p', (U, e))], kind=W)
                for e2 in (L, T):
                    J.ask('op_equal_node', d + e + e2, m, ['r', 'p', 'q'], {}, eq(1), [('p', (U, e)), ('q', (U, e2))], kind=W)
                    J.ask('op_equal_node', d + e + e2 + ' other', m, ['r', 'p', 'q'], {}, eq(0), [('p', (U, e)), ('q', ('Z', e2))], kind=W)
            if root is None and c[1] == L:
                for n, e in (('X', L), ('X', T)):
                    if 'several' in d and e:
                        m = m.copy()
                        m.seq(('X', T), ('Y', L))
                        J.ask('op_child_front', d, m, ['r', 'f', 'p'], {}, eq(('p', 'X', F.data)), [('p', (U, e))], kind=W)
                        J.ask('op_child_back', d, m, ['r', 'f', 'p'], {}, eq(('p', 'Y', F.data)), [('p', (U, e))], kind=W)
        # the parent of a node with zero to two siblings after it
        for k in range(3):
            xs = ['X'] + ['S%d' % i for i in range(k)]
            m = Model(('f',))
            for a, b in zip(xs, xs[1:]):
                m.seq((a, T), (b, L))
            m.seq((xs[-1], T), (U, T))
            if root:
                m.root('f')
            for e in (L, T):
                J.ask('op_find_parent', '%d siblings after it %s%s' % (k, root or '', e), m, ['r', 'p'], {}, at((U, T), m), [('p', ('X', e))], kind=W)
    for d, m, n in root_shapes():
        X = m.nxt[('f', L)]
        Y = m.prev(('f', T))
        for c in ('', 'c'):
            J.ask('op_%sroot' % c, d, m, ['r', 'f'], {}, at(('f', L), m), kind=W)
            J.ask('op_%sbegin' % c, d, m, ['r', 'f'], {}, at(X, m), kind=W)
            J.ask('op_%send' % c, d, m, ['r', 'f'], {}, at(('f', T), m), kind=W)
            if n != 0:
                J.ask('op_%sfront' % c, d, m, ['r', 'f'], {}, eq(('p', X[0], F.data)), kind=W)
                J.ask('op_%sback' % c, d, m, ['r', 'f'], {}, eq(('p', Y[0], F.data)), kind=W)
        for z in (0, N):
            J.ask('op_empty', d + ', size ' + ex(z), m, ['r', 'f'], {'f': z}, eq(int(n == 0)), kind=W)


def passes(J, most):
    """whole passes over small forests: the values that are visited, in order"""
    F = J.F

    def rev(es):
        return [(n, T if e == L else L) for n, e in reversed(es)]

    def depth(es):
        d, out = 0, []
        for n, e in es:
            if e == L:
                out.append((n, d))
                d += 1
            else:
                d -= 1
        return out

    def top(es):
        return [n for n, d in depth(es) if d == 0]
    names = ['n1', 'n2', 'n3', 'n4', 'n5']
    for k in range(most + 1):
        for es in trees(k, names):
            m = full(Model(('f',)), 'f', es)
            full_ = [(n, int(e == L)) for n, e in es]
            r = [(n, int(e == L)) for n, e in rev(es)]
            pre = [(n, 1) for n, e in es if e == L]
            post = [(n, 0) for n, e in es if e == T]
            dep = depth(es)
            want = {'pass_full': full_, 'pass_cfull': full_, 'pass_rev': r, 'pass_crev': r, 'pass_rev_range': r, 'pass_rev_back': r[::-1],
                    'pass_pre': pre, 'pass_cpre': pre, 'pass_post': post, 'pass_cpost': post, 'pass_pre_back': pre[::-1],
                    'pass_post_back': post[::-1], 'pass_depth': dep, 'pass_cdepth': dep,
                    'pass_children': [(n, 1) for n in top(es)], 'pass_children_back': [(n, 1) for n in top(es)[::-1]]}
            if k:
                a = es[0][0]
                sub = es[1:es.index((a, T))]
                want['pass_grandchildren'] = [(n, 1) for n in top(sub)]
                z = es[-1][0]
                sub = es[es.index((z, L)) + 1:-1]
                want['pass_rev_children'] = [(n, 1) for n in top(sub)[::-1]]
            sh = ' '.join(short(e) for e in es) or 'empty'
            for fn, w in want.items():
                J.ask(fn, sh, m, ['f'], {'f': k}, lambda o, w=w: visited(F, o, w), kind='walk')
            for fn in ('pass_filter', 'pass_cfilter'):
                J.ask(fn, sh, m, ['f'], {'f': k}, lambda o: filtered(F, o, es), kind='walk')


def visited(F, o, want):
    got = []
    for e in o.ev:
        if e[0] == 'user' and e[1] == 'w::visit':
            n = e[2][0]
            got.append((n[1] if isinstance(n, tuple) and n[0] == 'p' and n[2] == F.data else '?', e[2][1]))
    if got != want:
        return 'visits %s, %s is expected' % (' '.join('%s:%s' % (a, ex(b)) for a, b in got) or 'nothing', ' '.join('%s:%s' % x for x in want) or 'nothing')


def filtered(F, o, es):
    keep = {}
    for e in o.ev:
        if e[0] == 'user' and e[1] == 'w::keep::operator()':
            keep[e[2][1][1]] = o.facts.get(('s', e[4]))
    want, skip = [], None
    for n, e in es:
        if skip is None and e == L and keep.get(n) is False:
            skip = n
        if skip is None:
            if n not in keep:
                return 'does not ask whether %s is to be kept' % n
            want.append((n, int(e == L)))
        if skip == n and e == T:
            skip = None
    return visited(F, o, want)


def check(ck, kind, text):
    F = Forest(ck)
    J = Judge(ck, F, kind)
    most = 3 if ck.tier == 'quick' else 4
    if kind == 'walk':
        check_iterators(J, most)
        for r in ('iterator', 'it', 'child', 'pre', 'post', 'rev', 'depth', 'pass-full', 'has-children', 'find-parent'):
            if r != 'iterator':
                ck.require(r, 5)
    else:
        check_local(J)
        if kind != 'own':
            check_splice(J)
        check_small(J, most + 1, kind != 'own')
        check_whole(J, most)
        for r, n in (('insert', 10), ('erase', 40), ('insert-parent', 40), ('copy', 9), ('move', 5), ('erase-range', 50), ('reverse', 60)):
            ck.require(r, n)
        if kind != 'own':
            ck.require('splice-range', 500)
    if J.failed:
        ck.mins.clear()     # something is wrong, here or in what another rule reports
    if J.undecided:
        ck.notes.append('%d outcomes depend on nodes outside of the abstract heap' % J.undecided)
        ck.inst('undecided', str(J.undecided))
        if J.undecided > 40 and not J.failed:
            raise Broken('%d outcomes depend on nodes outside of the abstract heap' % J.undecided)
    ck.assumptions += ['user values may throw from copy construction and copy assignment, not from moves, comparison or destruction',
                       'what passes over a whole forest was interpreted for every forest of up to %d nodes' % most]
    return ck.finish(text, extra={'functions_entered': len(F.entered), 'interpretations': F.runs, 'ir_steps': F.steps,
                                  'links': {'%s %s' % k: v for k, v in F.off.items()}})
