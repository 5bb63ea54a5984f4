"""Which fields are shared, by which mutex they are guarded, and how the accesses are recognised.

Every field of the classes below is guarded by the named mutex role unless it is listed as free (with the
reason). Mode 'w': only modifications need the lock (the value is published by another mechanism).
"""
import re

from absint import root
from names import last, scope

# class -> {mutex field or None (the class's only mutex): {'free': {field: reason}, 'w': {field: reason}}}
TABLE = {
    'stlab::detail::notification_queue': {},
    'stlab::detail::waiter': {},
    'stlab::detail::priority_task_system': {
        'free': {'_q': 'sized by the constructor, the elements lock themselves',
                 '_waiters': 'sized by the constructor, the elements lock themselves',
                 '_index': 'atomic', '_count': 'const', '_thread_limit': 'const'}},
    'stlab::detail::serial_instance_t': {
        'free': {'_executor': 'set by the constructor', '_kickstart': 'set by the constructor',
                 'M_weak_this': 'control block'}},
    'stlab::detail::system_timer': {
        'free': {'_timed_queue_thread': 'set by the constructor, joined by the destructor'}},
    'stlab::pre_exit_stack_t': {},
    'stlab::detail::shared_base': {
        'free': {'_executor': 'set by the constructor'},
        'w': {}, 'pub': {'_result': 0, '_exception': 0, '_ready': 0}},
    'stlab::detail::when_all_shared': {
        'free': {'_f': 'set before the first input is attached'},
        'w': {'_args': 'read after the last input', '_exception': 'read after the last input'}},
    'stlab::detail::when_any_shared': {
        'free': {'_f': 'set before the first input is attached'},
        'w': {'_arg': 'read after the trigger', '_exception': 'read after the trigger', '_index': 'read after the trigger'}},
    'stlab::detail::common_context': {
        'free': {'_f': 'set before the first input is attached'}, 'size_free': {'_holds'}},
    'stlab::detail::context_result': None,
    'stlab::detail::blocking_get_guarded': {},
    'stlab::detail::shared_process': {
        'free': {'_executor': 'set by the constructor', '_process': 'owned by the running step',
                 '_timeout_function_active': 'atomic', '_sender_count': 'atomic', '_receiver_count': 'atomic',
                 '_process_buffer_size': 'atomic', '_upstream': 'const'},
        'mutex': {'_downstream': '_downstream_mutex', '_queue': '_process_mutex', '_process_running': '_process_mutex',
                  '_process_close_queue': '_process_mutex', '_process_final': '_process_mutex',
                  '_process_suspend_count': '_process_mutex'},
        'w': {'_downstream': 'appended only, a reader of the first n elements needs no lock'},
        'w_size': {'_downstream'}},
}

CONSTM = {'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'front', 'back', 'operator[]', 'at', 'operator*', 'operator->',
          'get', 'operator bool', 'has_value', 'lock', 'data', 'top', 'value', 'index', 'use_count', 'expired', 'valid',
          'capacity', 'get_deleter', 'joinable', 'get_id'}


def mutates(ev, i):
    """does the event modify its i-th argument object?"""
    if ev.kind in ('store', 'rmw'):
        return True
    if ev.kind == 'load':
        return False
    ln = last(ev.q)
    if i == 0:
        if ln in CONSTM or re.search(r'\) const( &&?)?( noexcept)?$', ev.full):
            return False
        if ln in ('make_tuple', 'tie', 'forward_as_tuple', 'distance', 'min', 'max', 'get_if', 'holds_alternative', 'as_const'):
            return False
        return True
    # further arguments: moved from or swapped
    if ln == 'swap' or ln == 'exchange':
        return True
    if ev.kind == 'call' and '&&)' in ev.full and (ln == 'operator=' or ln == scope(ev.q)[scope(ev.q).rfind('::') + 2:]):
        return True
    return False


def norm(c):
    """the name of a class without inline and unnamed namespaces"""
    return re.sub(r'(v\d+(_\d+)*|\(anonymous namespace\)|\{anon\})::', '', c)


def access(t, classes):
    """(object term, class, field, class as it is written in terms) of the innermost listed class that the address lies in"""
    while t.k in ('fld', 'elt'):
        if t.k == 'fld' and (t.a[1] in classes or norm(t.a[1]) in classes):
            return t.a[0], norm(t.a[1]), t.a[2], t.a[1]
        t = t.a[0]
    return None


def ctor_dtor(ev, cls):
    """a constructor or destructor of the class is on the stack (or the object is being built there)"""
    nm = cls[cls.rfind('::') + 2:]
    names = {cls + '::' + nm, cls + '::~' + nm, cls + '::~'}
    if norm(ev.fn.q) in names or norm(ev.fn.q).startswith(cls + '::~'):
        return True
    for m, caller, l in ev.stack:
        if norm(caller.q) in names or norm(caller.q).startswith(cls + '::~'):
            return True
    return False
