#include "w.hpp"
#include <chrono>
#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/future.hpp>
using namespace stlab;
namespace w {
void awaits(future<val> a, future<void> v, future<mov> m) {
    sink(await(std::move(a)));
    await(std::move(v));
    sink(await(std::move(m)));
    sink(await(a));
    sink(await_for(std::move(a), std::chrono::seconds{1}));
    sink(await_for(std::move(v), std::chrono::seconds{1}));
    sink(await_for(std::move(m), std::chrono::seconds{1}));
    sink(await_for(a, std::chrono::seconds{1}));
    sink(blocking_get(std::move(a)));
    sink(blocking_get_for(std::move(a), std::chrono::seconds{1}));
    sink(blocking_get(std::move(a), std::chrono::seconds{1}));
    sink(invoke_waiting(fn<val>{}));
}
} // namespace w
