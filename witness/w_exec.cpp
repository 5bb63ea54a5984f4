#include "w.hpp"
#include <chrono>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/executor_base.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/concurrency/main_executor.hpp>
#include <stlab/concurrency/serial_queue.hpp>
#include <stlab/concurrency/system_timer.hpp>
#include <stlab/pre_exit.hpp>
using namespace stlab;
namespace w {
struct tag_low { void operator()() const noexcept; };
struct tag_medium { void operator()() const noexcept; };
struct tag_high { void operator()() const noexcept; };
void levels() {
    low_executor(tag_low{});
    default_executor(tag_medium{});
    high_executor(tag_high{});
}
void execs(exec e, task<void() noexcept> t, detail::priority_task_system& p) {
    default_executor(nfn<void>{});
    low_executor(nfn<void>{});
    high_executor(nfn<void>{});
    default_executor(std::move(t));
    immediate_executor(nfn<void>{});
    p.wake();
    p.add_thread();
    p.join();
    detail::priority_task_system q{nullptr};
    executor_t d{default_executor};
    executor_t i{immediate_executor};
    sink(d);
    sink(i);
    executor_t l{low_executor};
    executor_t h{high_executor};
    sink(l);
    sink(h);
}
void timers(exec e, task<void() noexcept> t) {
    stlab::system_timer(std::chrono::milliseconds{5}, std::move(t));
    stlab::system_timer(std::chrono::seconds{5}, task<void() noexcept>{nfn<void>{}});
    executor_t a = execute_at(std::chrono::milliseconds{5}, executor_t{e});
    executor_t b = execute_delayed(std::chrono::milliseconds{5}, e);
    sink(a);
    sink(b);
    sink(executor{executor_t{e}} & fn<val>{});
    sink(fn<val>{} & executor{executor_t{e}});
}
void serials(exec e) {
    serial_queue_t q{e, schedule_mode::single};
    serial_queue_t r{e, schedule_mode::all};
    q.executor()(nfn<void>{});
    sink(r(fn<val>{}));
    sink(q(fn<val, val>{}, make<val>()));
    executor_t x{q.executor()};
    sink(x);
}
void handler();
void pre() {
    at_pre_exit(static_cast<pre_exit_handler>(nullptr));
    pre_exit();
}
} // namespace w
