"""Roles of the fields of a future's shared state, recognised by type."""
import re

from absint import mk, root, show
from build import Broken
from guarded import mutates
from names import last, scope

SB = 'stlab::detail::shared_base'


class Roles:
    def __init__(self, p):
        self.ready, self.then, self.res, self.exc, self.mx, self.ex = set(), set(), set(), set(), set(), set()
        ts = p.by_tname.get(SB)
        if not ts:
            raise Broken('the shared state class of futures is gone')
        self.kinds = {}
        for t in ts:
            for name, ty, off, line in (g[:4] for g in t['f']):
                if ty.startswith(('std::atomic<bool>', 'std::atomic_bool', 'std::atomic_flag')):
                    self.ready.add(name)
                elif ty.startswith('std::mutex'):
                    self.mx.add(name)
                elif 'exception_ptr' in ty and 'vector' not in ty and 'pair' not in ty:
                    self.exc.add(name)
                elif ty.startswith('std::optional'):
                    self.res.add(name)
                elif re.search(r'\btask_<', ty) and not ty.startswith('std::function'):
                    self.then.add(name)
                elif 'std::function' in ty:
                    self.ex.add(name)
        for nm in ('ready', 'then', 'res', 'exc', 'mx'):
            if not getattr(self, nm):
                raise Broken('no %s field found in %s' % (nm, SB))
        self.all = {}
        for nm in ('ready', 'then', 'res', 'exc', 'mx', 'ex'):
            for f in getattr(self, nm):
                self.all[f] = nm

    def role(self, t):
        """(role, object) of an address inside a shared state"""
        while t.k in ('fld', 'elt'):
            if t.k == 'fld' and t.a[1] == SB:
                r = self.all.get(t.a[2])
                return (r, t.a[0]) if r else None
            t = t.a[0]
        return None

    def ready_term(self, t):
        """the object whose ready flag this value is, if it is one"""
        if t.k == 'ld':
            r = self.role(t.a[0])
            if r and r[0] == 'ready':
                return r[1]
        if t.k in ('not', 'bool'):
            return self.ready_term(t.a[0])
        if t.k == 'cmp' and t.a[2].k == 'c':
            return self.ready_term(t.a[1])
        return None

    def held(self, ev, obj):
        return any(l.k == 'fld' and l.a[1] == SB and l.a[2] in self.mx and l.a[0] is obj.c for l in ev.locks)

    def fact(self, st, role, obj, val):
        """a branch on this path decided a value that depends on that field of the object"""
        for f, v in st.facts.items():
            for x in sub(f):
                if x.k == 'fld':
                    r = self.role(x)
                    if r and r[0] == role and r[1].c is obj.c:
                        if val is None:
                            return f
                        w = v.a[0] if v.k == 'c' else None
                        if w is not None and bool(w) == val:
                            return f
                    break
        return None


def sub(t):
    yield t
    for x in t.a:
        if hasattr(x, 'k'):
            for y in sub(x):
                yield y


EXECS = re.compile(r'^stlab::detail::(immediate_executor_type|executor_type|system_timer_type|main_executor_type|main_scheduler_type)::operator\(\)$')


def user_run(ev):
    """a continuation or executor is being invoked"""
    if ev.kind == 'user':
        if last(ev.q) != 'operator()':
            return False
        return True
    if ev.kind == 'icall':
        return True
    if ev.kind == 'enter':
        return ev.q == 'stlab::packaged_task::operator()'
    return False


def fresh(t):
    """the object was created on this path and is not shared yet"""
    t = t.c
    while True:
        if t.k in ('d', 'fld', 'elt', 'ptrh'):
            t = t.a[0]
        else:
            break
    return t.k in ('new', 'al')


HANDLE = re.compile(r'^std::weak_ptr<(?:class |struct )?stlab::(?:v\w+::)?detail::shared_(base|task)\b')


def handle_classes(p):
    """classes that refer to a future's state weakly: class -> field"""
    out = {}
    for tn, ts in p.by_tname.items():
        if not tn.startswith('stlab::') or tn.endswith('::') or 'lambda' in tn or 'enable_shared' in tn:
            continue
        for t in ts:
            for name, ty, off, line in (g[:4] for g in t['f']):
                if HANDLE.match(ty):
                    out[tn] = name
    if len(out) < 2:
        raise Broken('the handle classes of the resolving side are gone (found %s)' % sorted(out))
    return out


def of_lock(t):
    """the weak handle value this object was reached through, if any"""
    if t.k == 'd' and t.a[0].k == 'lk':
        return t.a[0].a[0]
    if t.k == 'fld' or t.k == 'elt':
        return of_lock(t.a[0])
    return None


def exec_nothrow(ev):
    """executors and continuations (noexcept) do not throw; other user code does"""
    if ev.kind == 'icall':
        return False
    if ev.kind == 'user':
        return ev.q.startswith('w::') and not ev.q.startswith('w::exec')
    return ev.kind == 'vcall' and False


def is_task_root(f):
    """the body of a packaged task: a concrete state's call operator"""
    return last(f.q) == 'operator()' and scope(f.q) == 'stlab::detail::shared'


def fn_throws(ev):
    """only the user's functions throw: not executors, nor copies and moves of values"""
    return ev.kind == 'user' and ev.q.startswith('w::') and last(ev.q) == 'operator()' and not ev.q.startswith('w::exec')
