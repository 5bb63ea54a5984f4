#include "w.hpp"
#include <stlab/concurrency/channel.hpp>
using namespace stlab;
namespace w {
using proc_f = fn<val, val>;
// every way to give a process an executor and a buffer size
auto an_plain(receiver<val>& r, proc_f f) { return r | std::move(f); }
auto an_size_f(receiver<val>& r, std::size_t size, proc_f f) { return r | (buffer_size{size} & std::move(f)); }
auto an_f_size(receiver<val>& r, std::size_t size, proc_f f) { return r | (std::move(f) & buffer_size{size}); }
auto an_exec_f(receiver<val>& r, executor_t exec, proc_f f) { return r | (executor{exec} & std::move(f)); }
auto an_f_exec(receiver<val>& r, executor_t exec, proc_f f) { return r | (std::move(f) & executor{exec}); }
auto an_size_pair(receiver<val>& r, executor_t exec, std::size_t size, proc_f f) { return r | (buffer_size{size} & executor_task_pair<proc_f>{exec, std::move(f)}); }
auto an_pair_size(receiver<val>& r, executor_t exec, std::size_t size, proc_f f) { return r | (executor_task_pair<proc_f>{exec, std::move(f)} & buffer_size{size}); }
auto an_exec_size_f(receiver<val>& r, executor_t exec, std::size_t size, proc_f f) { return r | ((executor{exec} & buffer_size{size}) & std::move(f)); }
auto an_size_exec_f(receiver<val>& r, executor_t exec, std::size_t size, proc_f f) { return r | ((buffer_size{size} & executor{exec}) & std::move(f)); }
auto an_lexec_size_f(receiver<val>& r, executor_t exec, std::size_t size, proc_f f) { const executor e{exec}; return r | ((e & buffer_size{size}) & std::move(f)); }
auto an_size_lexec_f(receiver<val>& r, executor_t exec, std::size_t size, proc_f f) { const executor e{exec}; return r | ((buffer_size{size} & e) & std::move(f)); }
auto an_f_exec_size(receiver<val>& r, executor_t exec, std::size_t size, proc_f f) { return r | (std::move(f) & (executor{exec} & buffer_size{size})); }
auto an_size_f_exec(receiver<val>& r, executor_t exec, std::size_t size, proc_f f) { return r | ((buffer_size{size} & std::move(f)) & executor{exec}); }
auto an_f_size_exec(receiver<val>& r, executor_t exec, std::size_t size, proc_f f) { return r | ((std::move(f) & buffer_size{size}) & executor{exec}); }
auto an_size_f_size(receiver<val>& r, std::size_t other, std::size_t size, proc_f f) { return r | ((buffer_size{other} & std::move(f)) & buffer_size{size}); }
auto an_process_exec(receiver<val>& r, executor_t exec, proc_f f) { const executor e{exec}; return r | detail::annotated_process<proc_f>{std::move(f), e}; }
} // namespace w
