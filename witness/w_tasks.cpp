// Programs over the operations of task, for callables that fit in the task and callables that do not.
#include "w.hpp"
#include <functional>
#include <stlab/concurrency/task.hpp>
using namespace stlab;
namespace w {
using T = task<val(val)>;
using N = task<val(val) noexcept>;
template <int I>
struct sm { // small
    sm(const sm&);
    sm(sm&&) noexcept;
    ~sm();
    val operator()(val) noexcept;
    char c[3];
};
template <int I>
struct lg { // large
    lg(const lg&);
    lg(lg&&) noexcept;
    ~lg();
    val operator()(val) noexcept;
    char c[400];
};
template <std::size_t S, std::size_t A>
struct alignas(A) sz { // a size and an alignment
    sz(const sz&);
    sz(sz&&) noexcept;
    ~sz();
    val operator()(val) noexcept;
    char c[S];
};
template <int I>
struct ts { // small, its call may throw
    ts(const ts&);
    ts(ts&&) noexcept;
    ~ts();
    val operator()(val);
    char c[3];
};
template <int I>
struct tl { // large, its call may throw
    tl(const tl&);
    tl(tl&&) noexcept;
    ~tl();
    val operator()(val);
    char c[400];
};
// what a rule looks for
template <class F>
void calls(val) noexcept; // the argument comes from a call of an F (void: of nothing)
template <class F>
void next() noexcept; // the next call is of an F
template <bool B>
void truth(bool) noexcept;
void same(bool, bool) noexcept;
template <class F>
void points(const void*) noexcept; // at a stored F, or (void) nowhere
template <class F>
void type(const std::type_info&, const std::type_info&) noexcept;

template <class K, class F>
void t_make(F f) {
    K t{std::move(f)};
    next<F>();
    calls<F>(t(make<val>()));
    truth<true>(static_cast<bool>(t));
    truth<false>(t == nullptr);
    truth<false>(nullptr == t);
    truth<true>(t != nullptr);
    truth<true>(nullptr != t);
}
template <class K, class F>
void t_target(F f) {
    K t{std::move(f)};
    const K& c = t;
    type<F>(t.target_type(), typeid(F));
    points<F>(t.template target<F>());
    points<F>(c.template target<F>());
    points<void>(t.template target<int>());
    points<void>(c.template target<int>());
}
template <class K, class F>
void t_copy_of(F f) {
    K t{f};
    next<F>();
    calls<F>(t(make<val>()));
}
template <class K, class F>
void t_assign_copy_of(F f) {
    K t;
    t = f;
    next<F>();
    calls<F>(t(make<val>()));
}
template <class K, class F>
void t_move(F f) {
    K t{std::move(f)};
    K u{std::move(t)};
    next<F>();
    calls<F>(u(make<val>()));
}
template <class K, class F>
void t_self(F f) {
    K t{std::move(f)};
    K& s = t;
    t = std::move(s);
    next<F>();
    calls<F>(t(make<val>()));
}
template <class K, class F>
void t_self_swap(F f) {
    K t{std::move(f)};
    K& s = t;
    swap(t, s);
    next<F>();
    calls<F>(t(make<val>()));
}
template <class K, class F>
void t_reset(F f) {
    K t{std::move(f)};
    t = nullptr;
    truth<false>(static_cast<bool>(t));
    next<void>();
    calls<void>(t(make<val>()));
}
template <class K, class F>
void t_from_empty(F f) {
    K t{std::move(f)};
    K u;
    t = std::move(u);
    truth<false>(static_cast<bool>(t));
    next<void>();
    calls<void>(t(make<val>()));
}
template <class K, class F>
void t_into_empty(F f) {
    K t{std::move(f)};
    K u;
    u = std::move(t);
    truth<true>(static_cast<bool>(u));
    next<F>();
    calls<F>(u(make<val>()));
}
template <class K, class F>
void t_swap_empty(F f) {
    K t{std::move(f)};
    K u{nullptr};
    t.swap(u);
    next<F>();
    calls<F>(u(make<val>()));
}
template <class K, class F, class G>
void t_assign(F f, G g) {
    K t{std::move(f)};
    K u{std::move(g)};
    t = std::move(u);
    next<G>();
    calls<G>(t(make<val>()));
}
template <class K, class F, class G>
void t_replace(F f, G g) {
    K t{std::move(f)};
    t = std::move(g);
    next<G>();
    calls<G>(t(make<val>()));
}
template <class K, class F, class G>
void t_swap(F f, G g) {
    K t{std::move(f)};
    K u{std::move(g)};
    swap(t, u);
    next<G>();
    calls<G>(t(make<val>()));
    next<F>();
    calls<F>(u(make<val>()));
}
template <class K, class F, class G>
void t_moved_from(F f, G g) { // what was moved from can be assigned to and destroyed
    K t{std::move(f)};
    K u{std::move(t)};
    t = std::move(g);
    next<G>();
    calls<G>(t(make<val>()));
    next<F>();
    calls<F>(u(make<val>()));
}
template <class K, class F, class G>
void t_from_moved(F f, G g) { // what was moved from can be moved from and moved over
    K t{std::move(f)};
    K u{std::move(t)};
    K v{std::move(t)};
    K x{std::move(g)};
    x = std::move(v);
    next<F>();
    calls<F>(u(make<val>()));
}
template <class K, class F, class G>
void t_replace_throws(F f, G g) { // an assignment that fails changes nothing
    K t{std::move(f)};
    try {
        t = g;
    } catch (...) {
        next<F>();
        calls<F>(t(make<val>()));
        return;
    }
    next<G>();
    calls<G>(t(make<val>()));
}
template <class K>
void t_empty() {
    K t;
    K n{nullptr};
    K m{std::move(t)};
    truth<false>(static_cast<bool>(t));
    truth<true>(t == nullptr);
    truth<true>(nullptr == t);
    truth<false>(t != nullptr);
    truth<false>(nullptr != t);
    truth<false>(static_cast<bool>(n));
    truth<false>(static_cast<bool>(m));
    type<void>(m.target_type(), typeid(void));
    points<void>(m.template target<int>());
    t = std::move(n);
    truth<false>(static_cast<bool>(t));
    next<void>();
    calls<void>(m(make<val>()));
}
void t_pointer(val (*p)(val)) {
    bool b = p != nullptr;
    T t{p};
    same(static_cast<bool>(t), b);
    same(t == nullptr, !b);
}
void t_pointer_move(val (*p)(val)) {
    bool b = p != nullptr;
    T t{std::move(p)};
    T u;
    u = std::move(t);
    same(static_cast<bool>(u), b);
}
void t_function(std::function<val(val)> p) {
    bool b = static_cast<bool>(p);
    T t{p};
    same(static_cast<bool>(t), b);
}
void t_function_move(std::function<val(val)> p) {
    bool b = static_cast<bool>(p);
    T t{std::move(p)};
    same(static_cast<bool>(t), b);
}
void t_function_assign(std::function<val(val)> p) {
    bool b = static_cast<bool>(p);
    T t;
    t = p;
    same(static_cast<bool>(t), b);
}
template <class K, class F>
void one() {
    t_make<K, F>(make<F>());
    t_target<K, F>(make<F>());
    t_copy_of<K, F>(make<F>());
    t_assign_copy_of<K, F>(make<F>());
    t_move<K, F>(make<F>());
    t_self<K, F>(make<F>());
    t_self_swap<K, F>(make<F>());
    t_reset<K, F>(make<F>());
    t_from_empty<K, F>(make<F>());
    t_into_empty<K, F>(make<F>());
    t_swap_empty<K, F>(make<F>());
}
template <class K, class F, class G>
void two() {
    t_assign<K, F, G>(make<F>(), make<G>());
    t_replace<K, F, G>(make<F>(), make<G>());
    t_swap<K, F, G>(make<F>(), make<G>());
    t_moved_from<K, F, G>(make<F>(), make<G>());
    t_from_moved<K, F, G>(make<F>(), make<G>());
    t_replace_throws<K, F, G>(make<F>(), make<G>());
}
template <class K>
void all() {
    one<K, sm<1>>();
    one<K, lg<1>>();
    two<K, sm<1>, sm<2>>();
    two<K, sm<1>, lg<2>>();
    two<K, lg<1>, sm<2>>();
    two<K, lg<1>, lg<2>>();
    t_empty<K>();
}
template <std::size_t S, std::size_t A>
void fit() {
    t_make<T, sz<S, A>>(make<sz<S, A>>());
}
void tasks() {
    all<T>();
    all<N>();
    t_make<T, ts<1>>(make<ts<1>>());
    t_make<T, tl<1>>(make<tl<1>>());
    t_move<T, ts<1>>(make<ts<1>>());
    t_move<T, tl<1>>(make<tl<1>>());
    fit<1, 1>();
    fit<8, 1>();
    fit<16, 1>();
    fit<32, 1>();
    fit<40, 1>();
    fit<47, 1>();
    fit<48, 1>();
    fit<49, 1>();
    fit<56, 1>();
    fit<64, 1>();
    fit<65, 1>();
    fit<80, 1>();
    fit<4, 4>();
    fit<8, 8>();
    fit<40, 8>();
    fit<48, 8>();
    fit<56, 8>();
    fit<64, 8>();
    fit<16, 16>();
    fit<48, 16>();
    fit<64, 16>();
    fit<32, 32>();
    fit<64, 64>();
}
} // namespace w
