"""Qualified names from demangled symbols."""
import functools
import re

_OPCH = set("<>=!+-*/&|^%~,[]")


def _skip(s, i, op, cl):
    """s[i] == op: index just past its partner."""
    d = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == op:
            d += 1
        elif c == cl:
            # '->' inside template arguments
            if not (cl == '>' and s[i - 1] == '-'):
                d -= 1
                if d == 0:
                    return i + 1
        elif op == '<' and c in '({':
            i = _skip(s, i, c, ')' if c == '(' else '}')
            continue
        elif s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            j = i + 8
            if s.startswith('()', j):
                i = j + 2
                continue
            while j < n and s[j] in _OPCH:
                if s[j] in '<>' and j > i + 8 and not (s[i + 8:j] in ('<', '>', '-', '<=')):
                    break
                j += 1
            if j > i + 8:
                i = j
                continue
        i += 1
    return n


@functools.lru_cache(maxsize=None)
def qname(d):
    """'void a::b<int>::c(x) const' -> 'a::b::c'. Lambdas are kept as '{lambda#n}'."""
    d = d.replace('[abi:cxx11]', '').replace('stlab::v0_0_0::', 'stlab::').replace('(anonymous namespace)', '{anon}')
    d = re.sub(r'\[abi:\w+\]', '', d)
    for p in ('non-virtual thunk to ', 'virtual thunk to ', 'guard variable for ', 'vtable for '):
        if d.startswith(p):
            d = d[len(p):]
    out = []
    i = 0
    n = len(d)
    start = 0
    while i < n:
        c = d[i]
        if d.startswith('operator', i) and (i == 0 or not (d[i - 1].isalnum() or d[i - 1] == '_')) and \
                i + 8 < n and not (d[i + 8].isalnum() or d[i + 8] == '_'):
            j = i + 8
            if d.startswith('()', j):
                out.append('operator()')
                i = j + 2
                continue
            if d[j] in _OPCH:
                k = j
                while k < n and d[k] in _OPCH:
                    if d[k] == '<' and k > j and d[j:k] != '<':
                        break
                    k += 1
                out.append('operator' + d[j:k])
                i = k
                continue
            if d.startswith('""', j):
                k = j
                while k < n and d[k] not in '(<':
                    k += 1
                out.append('operator' + d[j:k])
                i = k
                continue
            # conversion, new, delete
            k = j
            while k < n and d[k] != '(':
                if d[k] == '<':
                    k = _skip(d, k, '<', '>')
                else:
                    k += 1
            out.append('operator ' + d[j:k].strip())
            i = k
            continue
        if c == '<':
            i = _skip(d, i, '<', '>')
            continue
        if c == '(':
            i = _skip(d, i, '(', ')')
            # cv/ref qualifiers
            m = re.match(r'( const| volatile| &&?| noexcept)*', d[i:])
            i += m.end()
            if i < n and d.startswith('::', i):
                continue
            if i < n and d[i] == ' ' and d[i:].lstrip().startswith('['):
                break
            continue
        if c == '{':
            j = _skip(d, i, '{', '}')
            tok = d[i:j]
            m = re.match(r'\{lambda\(.*\)(#\d+)\}$', tok, re.S)
            out.append('{lambda' + m.group(1) + '}' if m else tok)
            i = j
            continue
        if c == ' ':
            if d[i:].startswith(' [') or d[i:].startswith(' requires') or d[i:].startswith(' (.'):
                break
            out = []
            i += 1
            continue
        if c in '*&' and not ''.join(out).strip():
            i += 1
            continue
        out.append(c)
        i += 1
    return ''.join(out).lstrip('*&')


def last(q):
    """last component of a qualified name"""
    m = re.search(r'(operator.*|[^:]+)$', q)
    if 'operator' in q:
        k = q.rfind('::operator')
        if k >= 0:
            return q[k + 2:]
    return q[q.rfind('::') + 2:] if '::' in q else q


def scope(q):
    l = last(q)
    return q[:-len(l) - 2] if len(q) > len(l) else ''


@functools.lru_cache(maxsize=None)
def tname(t):
    """IR or demangled type name -> qualified class name without template arguments."""
    t = re.sub(r'^(class|struct|union)\.', '', t)
    t = t.replace('stlab::v0_0_0::', 'stlab::')
    t = re.sub(r'\.\d+$', '', t)
    if t.startswith('anon') or '<lambda' in t:
        return 'closure'
    out = []
    i = 0
    while i < len(t):
        if t[i] == '<':
            i = _skip(t, i, '<', '>')
            continue
        out.append(t[i])
        i += 1
    return ''.join(out)


if __name__ == '__main__':
    import sys
    for l in sys.stdin:
        print(qname(l.rstrip('\n')))
