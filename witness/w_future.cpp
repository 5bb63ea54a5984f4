#include "w.hpp"
#include <stlab/concurrency/future.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/concurrency/ready_future.hpp>
#include <vector>

using namespace stlab;
namespace w {
int broken_promise_code() { return static_cast<int>(future_error_codes::broken_promise); }
// copyable result
void fut_copyable(future<val>& x, exec e) {
    sink(x.then(fn<val, val>{}));
    sink(x.then(e, fn<val, val>{}));
    sink(x | fn<void, val>{});
    sink(std::move(x).then(mfn<val, val>{}));
    sink(std::move(x).then(e, mfn<mov, val>{}));
    sink(std::move(x) | fn<val, val>{});
    sink(x | executor_task_pair<fn<val, val>>{executor_t{e}, fn<val, val>{}});
    sink(std::move(x) | executor_task_pair<fn<val, val>>{executor_t{e}, fn<val, val>{}});
    sink(x.then(fn<future<val>, val>{}));
    sink(x.recover(fn<val, future<val>>{}));
    sink(x.recover(e, fn<val, future<val>>{}));
    sink(x ^ fn<void, future<val>>{});
    sink(x ^ executor_task_pair<fn<val, future<val>>>{executor_t{e}, fn<val, future<val>>{}});
    sink(std::move(x).recover(mfn<val, future<val>>{}));
    sink(std::move(x).recover(e, mfn<val, future<val>>{}));
    sink(std::move(x) ^ fn<val, future<val>>{});
    sink(std::move(x) ^ executor_task_pair<fn<val, future<val>>>{executor_t{e}, fn<val, future<val>>{}});
    x.detach();
    std::move(x).detach(nfn<void, future<val>>{});
    sink(x.is_ready());
    sink(x.get_try());
    sink(std::move(x).get_try());
    sink(x.get_ready());
    sink(std::move(x).get_ready());
    sink(x.exception());
    sink(x.valid());
    sink(x == x);
    x.reset();
    future<val> y = x;
    y = x;
    y = std::move(x);
    swap(x, y);
}
// void result
void fut_void(future<void>& x, exec e) {
    sink(x.then(fn<val>{}));
    sink(x.then(e, fn<void>{}));
    sink(x | fn<void>{});
    sink(std::move(x).then(fn<void>{}));
    sink(std::move(x).then(e, fn<mov>{}));
    sink(std::move(x) | fn<val>{});
    sink(x.then(fn<future<void>>{}));
    sink(x.recover(fn<val, future<void>>{}));
    sink(x.recover(e, fn<void, future<void>>{}));
    sink(std::move(x).recover(fn<void, future<void>>{}));
    sink(std::move(x).recover(e, fn<val, future<void>>{}));
    x.detach();
    std::move(x).detach(nfn<void, future<void>>{});
    sink(x.is_ready());
    sink(x.get_try());
    sink(std::move(x).get_try());
    x.get_ready();
    std::move(x).get_ready();
    sink(x.exception());
    x.reset();
}
// move-only result
void fut_mov(future<mov>& x, exec e) {
    sink(std::move(x).then(fn<val, mov>{}));
    sink(std::move(x).then(e, mfn<mov, mov>{}));
    sink(std::move(x) | fn<val, mov>{});
    sink(std::move(x) | executor_task_pair<fn<val, mov>>{executor_t{e}, fn<val, mov>{}});
    sink(std::move(x).then(fn<future<mov>, mov>{}));
    sink(std::move(x).recover(fn<val, future<mov>>{}));
    sink(std::move(x).recover(e, mfn<val, future<mov>>{}));
    sink(std::move(x) ^ fn<val, future<mov>>{});
    sink(std::move(x) ^ executor_task_pair<fn<val, future<mov>>>{executor_t{e}, fn<val, future<mov>>{}});
    x.detach();
    std::move(x).detach(nfn<void, future<mov>>{});
    sink(x.is_ready());
    sink(x.get_try());
    sink(std::move(x).get_try());
    sink(std::move(x).get_ready());
    sink(x.exception());
    x.reset();
    future<mov> y = std::move(x);
    y = std::move(x);
}

void promises(detail::promise<val>& a, detail::promise<val>& b) {
    a = std::move(b);
    detail::promise<val> c = std::move(a);
    sink(c.canceled());
    std::move(c).set_value(make<val>());
    std::move(b).set_exception(make<std::exception_ptr>());
}
void packages(exec e) {
    {
        auto p = package<val(val)>(e, fn<val, val>{});
        p.first(make<val>());
        p.first.set_exception(make<std::exception_ptr>());
        sink(p.first.canceled());
        packaged_task<val> q = std::move(p.first);
        q = std::move(p.first);
    }
    {
        auto p = package<void()>(e, mfn<void>{});
        p.first();
        packaged_task<> q = std::move(p.first);
        q = std::move(p.first);
        p.first.set_exception(make<std::exception_ptr>());
    }
    {
        auto p = package<mov(mov)>(e, mfn<mov, mov>{});
        p.first(make<mov>());
        p.first.set_exception(make<std::exception_ptr>());
    }
    {
        auto p = package<future<val>(val)>(e, fn<future<val>, val>{});
        p.first(make<val>());
        p.first.set_exception(make<std::exception_ptr>());
    }
    {
        auto p = package<future<void>()>(e, fn<future<void>>{});
        p.first();
    }
    {
        auto p = package<future<mov>()>(e, fn<future<mov>>{});
        p.first();
    }
    sink(async(e, fn<val>{}));
    sink(async(e, fn<val, val>{}, make<val>()));
    sink(async(e, fn<future<val>>{}));
    sink(async(e, mfn<mov, mov>{}, make<mov>()));
    sink(async(e, fn<void>{}));
    sink(future_with_broken_promise<val>(e));
    sink(future_with_broken_promise<void>(e));
    sink(make_ready_future(make<val>(), e));
    sink(make_ready_future(make<mov>(), e));
    sink(make_ready_future(e));
    sink(make_exceptional_future<val>(make<std::exception_ptr>(), e));
    sink(make_exceptional_future<void>(make<std::exception_ptr>(), e));
}

void when_alls(exec_all e, future<val> a, future<val> b, future<void> v, future<mov> m) {
    sink(when_all(e, fn<val, val, val>{}, a, b));
    sink(when_all(e, fn<void, val, val>{}, a, v, b));
    sink(when_all(e, fn<void>{}, v, v));
    sink(when_all(e, fn<val, val, mov>{}, a, std::move(m)));
    sink(when_all(e, fn<future<val>, val>{}, a));
}
void when_anys(exec_any e, future<val> a, future<val> b, future<void> v, future<mov> m, future<mov> n) {
    sink(when_any(e, fn<val, val, std::size_t>{}, std::move(a), std::move(b)));
    sink(when_any(e, fn<void, std::size_t>{}, std::move(v), make<future<void>>()));
    sink(when_any(e, mfn<val, mov, std::size_t>{}, std::move(m), std::move(n)));
    sink(when_any(exec_any{e}, fn<void, std::size_t>{}, make<future<void>>(), make<future<void>>()));
    sink(when_any(exec_any{e}, fn<val, val, std::size_t>{}, make<future<val>>(), make<future<val>>()));
}
void ranges(exec_all e, exec_any ey, std::vector<future<val>> a, std::vector<future<void>> v, std::vector<future<mov>> m) {
    sink(when_all(e, fn<val, std::vector<val>>{}, std::make_pair(a.begin(), a.end())));
    sink(when_all(e, fn<void>{}, std::make_pair(v.begin(), v.end())));
    sink(when_all(e, fn<val, const std::vector<mov>&>{}, std::make_pair(m.begin(), m.end())));
    sink(when_any(ey, fn<val, val, std::size_t>{}, std::make_pair(a.begin(), a.end())));
    sink(when_any(ey, fn<void, std::size_t>{}, std::make_pair(v.begin(), v.end())));
    sink(when_any(ey, fn<val, mov, std::size_t>{}, std::make_pair(m.begin(), m.end())));
}
} // namespace w
