#include "w.hpp"
#include <stlab/concurrency/task.hpp>
using namespace stlab;
namespace w {
struct big {
    big();
    big(big&&) noexcept;
    ~big();
    val operator()(val);
    char c[400];
};
struct alignas(64) over {
    over();
    over(over&&) noexcept;
    ~over();
    val operator()(val);
    char c[8];
};
val freefn(val);
template <class T, class F>
void one(F f) {
    T t{std::move(f)};
    T u{std::move(t)};
    t = std::move(u);
    sink(t(make<val>()));
    sink(t.target_type());
    sink(t.template target<F>());
    const T& c = t;
    sink(c.template target<F>());
    swap(t, u);
    t.swap(u);
    sink(static_cast<bool>(t));
    sink(t == nullptr);
    sink(nullptr == t);
    sink(t != nullptr);
    sink(nullptr != t);
    t = nullptr;
    t = F{std::move(f)};
    T e;
    T n{nullptr};
    sink(e);
    sink(n);
}
void tasks() {
    one<task<val(val)>>(fn<val, val>{});
    one<task<val(val)>>(mfn<val, val>{});
    one<task<val(val)>>(big{});
    one<task<val(val)>>(over{});
    one<task<val(val) noexcept>>(nfn<val, val>{});
    task<val(val)> p{&freefn};
    sink(p(make<val>()));
    task<void() noexcept> v{nfn<void>{}};
    v();
    task<void()> w2{std::move(v)};
    w2();
}
} // namespace w
