"""T03: what compiles with a task, as assertions about types."""
import re

from build import Broken, compiles

A = [
    ('copy-construct', '!std::is_copy_constructible_v<T> && !std::is_constructible_v<T, const T&>', 'a task cannot be copied'),
    ('copy-const-rvalue', '!std::is_constructible_v<T, const T&&> && !std::is_constructible_v<N, const N&&>', 'a constant task cannot be moved from'),
    ('copy-assign', '!std::is_copy_assignable_v<T> && !std::is_copy_assignable_v<N>', 'a task cannot be copied by assignment'),
    ('move-construct', 'std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_constructible_v<N>', 'moving a task does not throw'),
    ('move-assign', 'std::is_nothrow_move_assignable_v<T> && std::is_nothrow_move_assignable_v<N>', 'assigning a moved task does not throw'),
    ('swap', 'noexcept(std::declval<T&>().swap(std::declval<T&>())) && noexcept(swap(std::declval<T&>(), std::declval<T&>()))', 'swapping tasks does not throw'),
    ('default', 'std::is_nothrow_default_constructible_v<T> && std::is_nothrow_constructible_v<T, std::nullptr_t>', 'an empty task is made without throwing'),
    ('reset', 'noexcept(std::declval<T&>() = nullptr)', 'emptying a task does not throw'),
    ('noexcept-rejects', '!std::is_constructible_v<N, thr> && !std::is_constructible_v<N, thr&> && !std::is_constructible_v<N, const thr&>', 'a noexcept task is not made of a function object that may throw'),
    ('noexcept-rejects-pointer', '!std::is_constructible_v<N, val (*)(val)>', 'a noexcept task is not made of a function that may throw'),
    ('noexcept-rejects-task', '!std::is_constructible_v<N, T> && !std::is_assignable_v<N&, T>', 'a noexcept task is not made of a task that may throw'),
    ('noexcept-rejects-function', '!std::is_constructible_v<N, std::function<val(val)>>', 'a noexcept task is not made of a std::function'),
    ('noexcept-rejects-assigned', '!std::is_assignable_v<N&, thr> && !std::is_assignable_v<N&, thr&> && !std::is_assignable_v<N&, val (*)(val)>', 'a noexcept task is not assigned a callable that may throw'),
    ('noexcept-accepts', 'std::is_constructible_v<N, not_thr> && std::is_constructible_v<N, not_thr&> && std::is_constructible_v<N, val (*)(val) noexcept> && std::is_assignable_v<N&, not_thr>', 'a noexcept task is made of a callable that does not throw'),
    ('accepts', 'std::is_constructible_v<T, thr> && std::is_constructible_v<T, not_thr> && std::is_constructible_v<T, mo> && std::is_constructible_v<T, N> && std::is_assignable_v<T&, thr>', 'a task is made of any callable, also one that can only be moved'),
    ('call-noexcept', 'noexcept(std::declval<N&>()(std::declval<val>()))', 'the call of a noexcept task is noexcept'),
    ('call-may-throw', '!noexcept(std::declval<T&>()(std::declval<val>()))', 'the call of a task may throw'),
    ('call-const', '!std::is_invocable_v<const T&, val>', 'a constant task cannot be called'),
    ('call-result', 'std::is_same_v<decltype(std::declval<T&>()(std::declval<val>())), val> && std::is_same_v<T::result_type, val>', 'the call of a task has the result type of its signature'),
    ('call-move-only', 'std::is_invocable_r_v<mov, stlab::task<mov(mov)>&, mov>', 'a task takes and gives values that can only be moved'),
    ('test-explicit', '!std::is_convertible_v<T, bool> && std::is_constructible_v<bool, const T&>', 'a task does not convert to bool by itself'),
    ('target-const', 'std::is_same_v<decltype(std::declval<const T&>().target<thr>()), const thr*> && std::is_same_v<decltype(std::declval<T&>().target<thr>()), thr*>', 'the target of a constant task is constant'),
    ('noexcept-kind', '!std::is_same_v<T, N>', 'a noexcept task is a type of its own'),
]
CODE = r"""
#include "w.hpp"
#include <functional>
#include <type_traits>
#include <stlab/concurrency/task.hpp>
namespace w {
using T = stlab::task<val(val)>;
using N = stlab::task<val(val) noexcept>;
struct thr { val operator()(val); };
struct not_thr { val operator()(val) noexcept; };
struct other {};
struct wrong { val operator()(other); };
struct mo { mo(mo&&) noexcept; val operator()(val); };
%s
}
"""

# programs that must not compile
NOT = [
    ('copy-of-lvalue', 'T f(T& t) { return T(t); }', 'a task cannot be copied'),
    ('assign-lvalue', 'void f(T& t, T& u) { t = u; }', 'a task cannot be copied by assignment'),
    ('copy-of-noexcept', 'N f(N& t) { return N(t); }', 'a noexcept task cannot be copied'),
    ('noexcept-of-throwing', 'N f(thr& t) { return N(t); }', 'a noexcept task is not made of a callable that may throw'),
    ('not-callable', 'T f() { return T(3); }', 'a task is made of callables only'),
    ('wrong-argument', 'T f(wrong& t) { return T(std::move(t)); }', 'a task is made of what can be called with its arguments'),
]
YES = 'T f(T& t) { return T(std::move(t)); } N g(not_thr& t) { return N(t); } T h(mo& t) { return T(std::move(t)); }'


def run(ck):
    code = CODE % '\n'.join('static_assert(%s, "ASSERT %s");' % (c, k) for k, c, m in A)
    for cfg in ('portable20', 'portable17'):
        ok, out = compiles(code, cfg, extra=('-Wno-everything', '-ferror-limit=0', '-fno-color-diagnostics'))
        failed = set(re.findall(r'ASSERT ([\w-]+)', '\n'.join(l for l in out.splitlines() if 'error:' in l)))
        other = [l for l in out.splitlines() if 'error:' in l and 'ASSERT' not in l]
        if not ok and not failed or other:
            raise Broken('the assertions do not compile: ' + (other or [out])[0][:300])
        for k, c, m in A:
            ck.inst('assertion', '%s %s' % (cfg, k))
            if k in failed:
                ck.find('type', k, 'not so: %s (%s)' % (m, c), 'include/stlab/concurrency/task.hpp')
    ok, out = compiles(CODE % YES)
    if not ok:
        raise Broken('the witness program does not compile: ' + out[:300])
    for k, c, m in NOT:
        ok, out = compiles(CODE % c)
        ck.inst('rejected', k)
        if ok:
            ck.find('type', k, 'not so: %s (%s compiles)' % (m, c), 'include/stlab/concurrency/task.hpp')
    ck.cov['assertions'] = len(A)
    return ck.finish('Assertions on types that the compiler decides for every callable of the kind: copies are rejected, moves do not throw, and a noexcept '
                     'task is made only of what does not throw.')
