"""Lock identities and who may run user code: shared by the lock rules."""
import re

from absint import SMART, root, show
from names import last, qname, scope, tname

USERCLS = re.compile(r'^w::')


def lockid(t):
    """(class, field) of a mutex term, or another stable name"""
    if t.k == 'fld':
        return '%s::%s' % (t.a[1], t.a[2])
    if t.k == 'al':
        return 'local ' + (t.a[0] or 'mutex')
    if t.k == 'g':
        return 'global ' + t.a[0]
    return 'mutex ' + show(t)


def special(q, full):
    """constructor, destructor or assignment of a user type: value semantics of the user's own type"""
    ln, sc = last(q), scope(q)
    return ln.startswith('~') or ln == 'operator=' or ln == sc[sc.rfind('::') + 2:]


def user_call(ev):
    """a user supplied callable or process is being run by this event"""
    if ev.kind == 'icall':
        return True
    if ev.kind == 'user':
        if ev.q.startswith('w::'):
            if special(ev.q, ev.full) or last(ev.q) in ('sink', 'make', 'operator<', 'operator=='):
                return False
            return True
        return True          # std::function / stlab::task
    return False


class Reach:
    """functions from which the invocation of a user callable is reachable through the call graph"""

    def __init__(self, prog):
        self.p = prog
        self.memo = {}

    def direct(self, q, full):
        if q.startswith('w::') and not special(q, full) and last(q) not in ('sink', 'make', 'operator<', 'operator=='):
            return True
        return q in ('std::function::operator()', 'stlab::task_::operator()')

    def user(self, m):
        if m in self.memo:
            return self.memo[m]
        seen = set()
        todo = [m]
        res = False
        while todo and not res:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if self.memo.get(x):
                res = True
                break
            d = self.p.dem(x)
            if self.direct(qname(d), d):
                res = True
                break
            f = self.p.funcs.get(x)
            if f is None:
                continue
            for b in f.load():
                for ins in b:
                    if ins['o'] != 'call':
                        continue
                    if 'f' in ins:
                        todo.append(ins['f'])
                    # virtual and indirect calls inside: their targets are visited by the caller's own events
        self.memo[m] = res
        return res


RELEASED = re.compile(r'(stlab::detail::shared_base|stlab::detail::shared_process|stlab::future|stlab::detail::shared)\b')


def releases(ev, st):
    """the event may destroy the last owner of a future's shared state (which cancels, running user destructors
    and continuations' bookkeeping)"""
    if not ev.args or ev.kind not in ('dtor', 'call'):
        return False
    sc, ln = scope(ev.q), last(ev.q)
    a = ev.args[0]
    cur = st.env.get(a)
    if sc in SMART and 'weak_ptr' not in sc:
        if not re.search(r'_ptr(_access)?<(stlab::detail::shared_base|stlab::detail::shared_process)', ev.full):
            return False
        if ln == 'reset':
            return cur is None or cur.k not in ('null', 'empty')
        if ln == 'operator=':
            return ev.val is not None and ev.val.k == 'null' and (cur is None or cur.k != 'null')
        return False     # destruction of one handle: usually not the last owner
    if sc in ('std::vector', 'std::array', 'std::deque', 'std::list', 'std::optional'):
        if not re.search(r'\bstd::\w+<(stlab::future|stlab::sender|stlab::receiver|stlab::packaged_task|std::shared_ptr<stlab::detail::shared_)', ev.full):
            return False
        if ln in ('clear', 'resize', 'pop_back', 'pop_front', 'erase', 'reset') or ln.startswith('~') or \
                (ln == 'operator=' and 'nullopt_t' in ev.full):
            return cur is None or cur.k not in ('empty', 'null')
    return False
