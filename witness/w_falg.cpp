// One function for each algorithm on forests. They are analysed, never run.
#include "w.hpp"
#include <new>
#include <optional>
#include <stlab/forest_algorithms.hpp>
using namespace stlab;
namespace w {
bool operator!=(const val& a, const val& b);
struct proj { // makes the value of the new node
    val operator()(const val&) const noexcept;
};
struct same { // gives a value that exists
    const val& operator()(const val& x) const noexcept { return x; }
};
struct pick { // decides which edge stands for a new node
    template <class I>
    bool operator()(const I& i) const { return ask(*i, is_leading(i)); }
    bool ask(const val&, bool) const noexcept;
};
struct out { // an output iterator
    out(const out&) noexcept;
    ~out();
    out& operator=(const out&) noexcept;
    out& operator*() noexcept;
    out& operator++() noexcept;
    out operator++(int) noexcept;
    out& operator=(const val&) noexcept;
    out& operator=(std::nullopt_t) noexcept;
    int i;
};
using F = forest<val>;
using I = F::iterator;
using CI = F::const_iterator;
using O = std::optional<val>;
using Tr = forests::transcribe_iterator<F>;

// what the rule reads: the links and the size of a node
void it_inc(I& x) { ++x; }
void it_dec(I& x) { --x; }
const val* at(I& x) { return &*x; }
bool leading(I& x) { return is_leading(x); }
bool engaged(O& x) { return x.has_value(); }
O* second(O& x) { return &x + 1; }

void op_default(F& h) { ::new (static_cast<void*>(&h)) F; }
void op_equal_shape(bool& r, const F& f, const F& g) { r = forests::equal_shape(f, g); }
void op_transcribe(Tr& r, F& g, const F& f) { ::new (static_cast<void*>(&r)) Tr(forests::transcribe(f, forests::transcriber(g), proj())); }
void op_transcribe_same(Tr& r, F& g, const F& f) { ::new (static_cast<void*>(&r)) Tr(forests::transcribe(f, forests::transcriber(g), same())); }
void op_transcribe_part(Tr& r, F& g, I& a, I& b) { ::new (static_cast<void*>(&r)) Tr(forests::transcribe(a, b, forests::transcriber(g), proj())); }
void op_transcribe_if(Tr& r, F& g, const F& f) { ::new (static_cast<void*>(&r)) Tr(forests::transcribe(f, forests::transcriber(g), proj(), pick())); }
void op_flatten(F& f, out& o) { forests::flatten(f.begin(), f.end(), o); }
void op_cflatten(const F& f, out& o) { forests::flatten(f.begin(), f.end(), o); }
void op_unflatten(Tr& r, F& g, O* a, O* b) { ::new (static_cast<void*>(&r)) Tr(forests::unflatten(a, b, g)); }

// the steps of a transcriber
void tr_make(Tr& r, F& f, I& p) { ::new (static_cast<void*>(&r)) Tr(f, p); }
void tr_put(Tr& t, const val& v) { *t = v; }
void tr_move(Tr& t, val& v) { *t = std::move(v); }
void tr_inc(Tr& t) { ++t; }
void tr_inc_post(Tr& r, Tr& t) { ::new (static_cast<void*>(&r)) Tr(t++); }
void tr_trailing(Tr& t) { (*t).trailing(); }
} // namespace w
