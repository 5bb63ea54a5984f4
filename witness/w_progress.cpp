// One function for each operation of a progress tracker and of what it tracks. They are analysed, never run.
#include "w.hpp"
#include <new>
#include <stlab/concurrency/progress.hpp>
using namespace stlab;
namespace w {
struct work {
    work() noexcept;
    work(const work&);
    work(work&&) noexcept;
    work& operator=(const work&);
    work& operator=(work&&) noexcept;
    ~work();
    val operator()(val&) const;
};
using C = detail::tracker_client<work>;
using S = detail::tracker_server;
void op_default(C& r) { ::new (static_cast<void*>(&r)) C; }
void op_copy(C& r, C& c) { ::new (static_cast<void*>(&r)) C(static_cast<const C&>(c)); }
void op_move(C& r, C& c) { ::new (static_cast<void*>(&r)) C(std::move(c)); }
void op_copy_assign(C& r, C& c) { r = static_cast<const C&>(c); }
void op_move_assign(C& r, C& c) { r = std::move(c); }
void op_copy_self(C& r) { r = static_cast<const C&>(r); }
void op_move_self(C& r) { r = std::move(r); }
void op_destroy(C& r) { r.~C(); }
void op_call(C& c, val& v) { val x = c(v); (void)x; }
void op_track(C& r, progress_tracker& t, work& f) { ::new (static_cast<void*>(&r)) C(t(std::move(f))); }
void sv_default(S& r) { ::new (static_cast<void*>(&r)) S; }
void sv_make(S& r, std::function<void(size_t, size_t)> f) { ::new (static_cast<void*>(&r)) S(std::move(f)); }
size_t steps(const progress_tracker& t) { return t.steps(); }
size_t completed(const progress_tracker& t) { return t.completed(); }
void tr_default(progress_tracker& r) { ::new (static_cast<void*>(&r)) progress_tracker; }
void tr_make(progress_tracker& r, std::function<void(size_t, size_t)> f) { ::new (static_cast<void*>(&r)) progress_tracker(std::move(f)); }
} // namespace w
