"""Program: the union of the dumps of the witness units."""
import collections
import json
import re

from names import qname, last, scope, tname


class Func:
    __slots__ = ('m', 'd', 'q', 'line', 'file', 'args', 'blocks', 'callers', 'at', 'nu', 'nr', 'cls',
                 'acc', 'art', 'raw', 'files', '_live', 'unit', 'lam')

    def __init__(self, raw, files, unit):
        self.raw = raw
        self.files = files
        self.unit = unit
        self._live = None
        self.blocks = None

    def load(self):
        if self.blocks is None:
            self.blocks = self.raw['b']
        return self.blocks


class Program:
    def __init__(self, paths):
        self.funcs = {}      # mangled -> Func with body
        self.decls = {}      # mangled -> (demangled, nu)
        self.types = {}      # qualified class (with template arguments) -> record
        self.by_tname = collections.defaultdict(list)
        self.order = collections.defaultdict(list)  # class -> field names in order
        self.fields = collections.defaultdict(set)  # class without template args -> field names
        self.vt = []         # (slots, [(off,type)])
        self.tables = {}     # constant global -> names of the functions in it
        self.callers = collections.defaultdict(dict)
        self.addr_taken = set()
        self.srcfiles = set()
        self.byq = collections.defaultdict(list)
        for p in paths:
            self._read(p)
        for f in self.funcs.values():
            self.byq[f.q].append(f)
        self.vtslots = collections.defaultdict(list)  # type -> list of (slot list base at type offset)
        for slots, ts in self.vt:
            for off, ty in ts:
                self.vtslots[norm(ty)].append((slots, off // 8))
        self._dem = {}

    def _read(self, path):
        unit = path
        pend = []
        files = []
        with open(path) as fh:
            for ln in fh:
                k, rest = ln.rstrip('\n').split('\t', 1)
                if k == 'H':
                    h = json.loads(rest)
                    for t in h['types']:
                        n = norm(t['n'])
                        t['n'] = n
                        if n not in self.types:
                            self.types[n] = t
                            tn = tname(n)
                            self.by_tname[tn].append(t)
                            for f in t['f']:
                                self.fields[tn].add(f[0])
                                if f[0] not in self.order[tn]:
                                    self.order[tn].append(f[0])
                    self.tables.update(h['tables'])
                    for v in h['vtables']:
                        self.vt.append((v['s'], v['t']))
                elif k == 'X':
                    files.extend(json.loads(rest))
                else:
                    m, js = rest.split('\t', 1)
                    o = json.loads(js)
                    for c, dumped in o['callers']:
                        self.callers[m][c] = self.callers[m].get(c, 0) or dumped
                    if o.get('at'):
                        self.addr_taken.add(m)
                    if k == 'D':
                        if m not in self.decls:
                            self.decls[m] = (o['d'], bool(o.get('nu')))
                        continue
                    if m in self.funcs:
                        continue
                    f = Func(o, files, unit)
                    f.m = m
                    f.d = o['d'].replace('stlab::v0_0_0::', 'stlab::')
                    f.q = qname(o['d'])
                    f.line = o.get('line', 0)
                    f.args = o['args']
                    f.nu = bool(o.get('nu'))
                    f.nr = bool(o.get('nr'))
                    f.cls = o.get('cls')
                    f.acc = o.get('acc')
                    f.art = bool(o.get('art'))
                    f.at = bool(o.get('at'))
                    self.funcs[m] = f
                    pend.append(f)
        for f in pend:
            fi = f.raw.get('file')
            f.file = files[fi] if fi is not None else '?'
            self.srcfiles.add(f.file)

    def dem(self, m):
        r = self._dem.get(m)
        if r is None:
            if m in self.funcs:
                r = self.funcs[m].d
            elif m in self.decls:
                r = self.decls[m][0].replace('stlab::v0_0_0::', 'stlab::')
            else:
                r = m
            self._dem[m] = r
        return r

    def virtual_targets(self, ty, k):
        out = []
        for slots, base in self.vtslots.get(norm(ty), ()):
            i = base + k
            if 0 <= i < len(slots) and slots[i] and slots[i] not in out:
                out.append(slots[i])
        return out


def norm(t):
    return t.replace('stlab::v0_0_0::', 'stlab::')


def liveness(fn):
    """live-in SSA ids per block (phi operands are live on the edge, i.e. out of the predecessor)."""
    if fn._live is not None:
        return fn._live
    blocks = fn.load()
    n = len(blocks)
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]
    phiuse = [set() for _ in range(n)]
    succ = [[] for _ in range(n)]

    def vals(v, acc):
        if isinstance(v, int) and not isinstance(v, bool):
            acc.add(v)

    for b, insts in enumerate(blocks):
        for ins in insts:
            o = ins['o']
            us = set()
            if o == 'phi':
                for v, pb in ins['v']:
                    if isinstance(v, int):
                        phiuse[pb].add(v)
            else:
                for k, v in ins.items():
                    if k in ('i', 'l', 'o', 't', 'to', 'un', 'd', 'x', 'sret') and not (k == 'd' and o in ('memcpy', 'memset')):
                        if k == 'x' and isinstance(v, list):
                            for e in v:
                                if isinstance(e, list):
                                    vals(e[0], us)
                        continue
                    if k == 'a' and isinstance(v, list) and o in ('call', 'other'):
                        for e in v:
                            vals(e, us)
                    else:
                        vals(v, us)
            use[b] |= us - dfn[b]
            if 'i' in ins:
                dfn[b].add(ins['i'])
            if o == 'br':
                succ[b] = list(ins['t'])
            elif o == 'switch':
                succ[b] = [ins['d']] + [c[1] for c in ins['cs']]
            elif 'to' in ins:
                succ[b] = [ins['to'], ins['un']]
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            out = set(phiuse[b])
            for s in succ[b]:
                out |= live[s]
            new = use[b] | (out - dfn[b])
            # phi definitions are not live-in
            if new != live[b]:
                live[b] = new
                ch = True
    fn._live = [frozenset(x) for x in live]
    return fn._live
