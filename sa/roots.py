"""Entry points: library functions that somebody other than the library's own inlined code calls."""
import re


def is_lib(f):
    q = f.q
    return q.startswith('stlab::') or q.startswith('std::coroutine_traits') or q.startswith('co_await') or 'operator co_await' in q


def reaches_lib(p):
    """functions of the standard library that call into the library (std::thread, std::function, ...)"""
    if getattr(p, '_rl', None) is None:
        rl = set()
        todo = [m for m, f in p.funcs.items() if is_lib(f)]
        seen = set(todo)
        while todo:
            x = todo.pop()
            for c in p.callers.get(x, {}):
                if c not in seen and c in p.funcs:
                    seen.add(c)
                    if not is_lib(p.funcs[c]) and not p.funcs[c].q.startswith('w::'):
                        rl.add(c)
                        todo.append(c)
        p._rl = rl
    return p._rl


ENTRY = re.compile(r'::(_M_run|_M_invoke)$')


def roots(p, pred=None):
    out = []
    rl = reaches_lib(p)
    for m, f in p.funcs.items():
        if not is_lib(f):
            if m in rl and (ENTRY.search(f.q) or any(c not in p.funcs or not d for c, d in p.callers.get(m, {}).items())):
                if pred is None or pred(f):
                    out.append(f)
            continue
        cal = p.callers.get(m, {})
        r = m in p.addr_taken or not cal
        if not r:
            for c, dumped in cal.items():
                g = p.funcs.get(c)
                if g is None or not dumped or g.q.startswith('w::'):
                    r = True
                    break
        if r and (pred is None or pred(f)):
            out.append(f)
    return out
