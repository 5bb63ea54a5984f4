#include "w.hpp"
#include <chrono>
#include <functional>
#include <stlab/concurrency/channel.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/test/model.hpp>
using namespace stlab;
namespace w {
// processes with every optional part
template <class R, class A>
struct proc {
    proc();
    proc(const proc&);
    proc(proc&&) noexcept;
    ~proc();
    void await(A);
    R yield();
    process_state_scheduled state() const;
    void close();
    void set_error(std::exception_ptr);
    int i;
};
template <class R, class A>
struct proc_plain { // neither close nor set_error
    proc_plain();
    proc_plain(const proc_plain&);
    proc_plain(proc_plain&&) noexcept;
    ~proc_plain();
    void await(A);
    R yield();
    process_state_scheduled state() const;
    int i;
};
template <class R, class A>
struct proc_close { // close and no set_error
    proc_close();
    proc_close(const proc_close&);
    proc_close(proc_close&&) noexcept;
    ~proc_close();
    void await(A);
    R yield();
    process_state_scheduled state() const;
    void close();
    int i;
};
template <class R, class A, class B>
struct proc2 {
    proc2();
    proc2(const proc2&);
    proc2(proc2&&) noexcept;
    ~proc2();
    void await(A, B);
    R yield();
    process_state_scheduled state() const;
    void close();
    void set_error(std::exception_ptr);
    int i;
};
template <class R>
struct gen { // a generator
    gen();
    gen(const gen&);
    gen(gen&&) noexcept;
    ~gen();
    R yield();
    process_state_scheduled state() const;
    int i;
};
template <class T>
void ends(T& s) {
    T t = std::move(s);
    s = std::move(t);
    swap(s, t);
    sink(s == t);
}
template <class R>
void recv(R& r) {
    sink(r.ready());
    r.set_ready();
    ends(r);
}
void chan_copy(exec e, sender<val>& s, receiver<val>& r) {
    auto c = channel<val>(e);
    auto d = channel<val>(default_executor);
    s = c.first;
    r = c.second;
    sender<val> s2 = s;
    receiver<val> r2 = r;
    ends(s);
    recv(r);
    s(make<val>());
    s(make<std::exception_ptr>());
    sink(s.free_buffer());
    s.close();
    auto a = r | fn<val, val>{};
    recv(a);
    auto b = r | fn<void, val>{};
    recv(b);
    auto f = r | proc<val, val>{};
    recv(f);
    auto f0 = r | proc_plain<val, val>{};
    recv(f0);
    auto f1 = r | proc_close<val, val>{};
    recv(f1);
    auto g = r | executor_task_pair<fn<val, val>>{executor_t{e}, fn<val, val>{}};
    recv(g);
    auto h = r | (buffer_size{3} & fn<val, val>{});
    auto h2 = r | (fn<val, val>{} & buffer_size{3});
    auto h3 = r | (executor{executor_t{e}} & fn<val, val>{});
    auto h4 = r | (buffer_size{3} & executor_task_pair<fn<val, val>>{executor_t{e}, fn<val, val>{}});
    auto h5 = r | (executor_task_pair<fn<val, val>>{executor_t{e}, fn<val, val>{}} & buffer_size{3});
    auto h6 = r | (executor{executor_t{e}} & buffer_size{3} & fn<val, val>{});
    auto h7 = r | (fn<val, val>{} & (executor{executor_t{e}} & buffer_size{3}));
    auto h8 = r | ((fn<val, val>{} & buffer_size{3}) & executor{executor_t{e}});
    auto h9 = r | ((buffer_size{1} & fn<val, val>{}) & buffer_size{3});
    const executor ce{executor_t{e}};
    sink(detail::annotated_process<fn<val, val>>{fn<val, val>{}, ce});
    sink(buffer_size{3} & executor{executor_t{e}});
    auto i = r | s;
    recv(i);
    proc<val, val> p;
    auto j = r | std::ref(p);
    recv(j);
    fn<val, val> q;
    auto k = r | std::ref(q);
    recv(k);
    auto l = r | fn<mov, val>{};
    recv(l);
    auto l2 = r | proc<mov, val>{};
    recv(l2);
    auto m = std::move(l) | mfn<mov, mov>{};
    recv(m);
}
void chan_mov(exec e, sender<mov>& s, receiver<mov>& r) {
    auto c = channel<mov>(e);
    s = std::move(c.first);
    r = std::move(c.second);
    ends(s);
    recv(r);
    s(make<mov>());
    s(make<std::exception_ptr>());
    sink(s.free_buffer());
    s.close();
    auto a = r | fn<val, mov>{};
    recv(a);
    auto b = r | fn<mov, mov>{};
    recv(b);
    auto d = r | proc<mov, mov>{};
    recv(d);
}
void chan_void(exec e) {
    auto r = channel<void>(e);
    auto b = r | gen<val>{};
    recv(b);
    recv(r);
}
void chan_merge(exec e, receiver<val>& a, receiver<val>& b) {
    auto z = zip_with(e, fn<val, val, val>{}, a, b);
    recv(z);
    auto z2 = zip_with(e, proc2<val, val, val>{}, a, b);
    recv(z2);
    auto z3 = zip(e, a, b);
    recv(z3);
    auto z5 = z3 | fn<val, std::tuple<val, val>>{};
    recv(z5);
    auto u = merge_channel<unordered_t>(e, fn<val, val>{}, a, b);
    recv(u);
    auto o = merge_channel<round_robin_t>(e, fn<val, val>{}, a, b);
    recv(o);
    auto z4 = merge_channel<zip_with_t>(e, fn<val, val, val>{}, a, b);
    recv(z4);
}
void fproc(function_process<val(val)>& p) {
    function_process<val(val)> q{fn<val, val>{}};
    p.await(make<val>());
    sink(p.yield());
    sink(p.state());
}
void models() {
    annotate_counters c;
    annotate a{c};
    annotate b = a;
    a = b;
    annotate d = std::move(a);
    d = std::move(b);
    c.wait(1);
    sink(c.remaining());
    sink(a == b);
    swap(a, b);
    sink(d);
}
} // namespace w
