#include "w.hpp"
#include <stlab/concurrency/channel.hpp>
using namespace stlab;
namespace w {
// the queues of every way to merge three inputs
template <class M>
struct merged {
    using queue = typename M::template strategy_type<receiver<val>, receiver<val>, receiver<val>>;
    static queue merge_make() { return queue{}; }
    static bool merge_empty(const queue& q) { return q.empty(); }
    static auto merge_front(queue& q) { return q.front(); }
    static void merge_pop(queue& q) { q.pop_front(); }
    static auto merge_size(const queue& q) { return q.size(); }
};
template struct merged<unordered_t>;
template struct merged<round_robin_t>;
template struct merged<zip_with_t>;
} // namespace w
