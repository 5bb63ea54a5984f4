// One function for each operation of a forest and of its iterators. They are analysed, never run.
#include "w.hpp"
#include <new>
#include <stlab/forest.hpp>
using namespace stlab;
namespace w {
bool operator!=(const val& a, const val& b);
struct keep {
    bool operator()(const val&) const;
};
using F = forest<val>;
using I = F::iterator;
using CI = F::const_iterator;
using Ch = F::child_iterator;
using CCh = F::const_child_iterator;
using Pre = F::preorder_iterator;
using Post = F::postorder_iterator;
using CPre = F::const_preorder_iterator;
using CPost = F::const_postorder_iterator;
using Rev = F::reverse_iterator;
using CRev = F::const_reverse_iterator;
using Dep = depth_fullorder_iterator<I>;
using CDep = depth_fullorder_iterator<CI>;
using Fil = filter_fullorder_iterator<I, keep>;
using CFil = filter_fullorder_iterator<CI, keep>;
using RCh = child_iterator<Rev>;
using DCh = child_iterator<Dep>;

// what the rules read: the node and the edge of an iterator, and the links of a node
const val* at(I& x) { return &*x; }
bool leading(I& x) { return is_leading(x); }

void op_default(F& h) { ::new (static_cast<void*>(&h)) F; }
void op_destroy(F& f) { f.~F(); }
void op_copy(F& h, const F& f) { ::new (static_cast<void*>(&h)) F(f); }
void op_move(F& h, F& f) { ::new (static_cast<void*>(&h)) F(std::move(f)); }
void op_copy_assign(F& f, const F& g) { f = g; }
void op_move_assign(F& f, F& g) { f = std::move(g); }
void op_swap(F& f, F& g) { f.swap(g); }
void op_clear(F& f) { f.clear(); }
void op_size(std::size_t& r, const F& f) { r = f.size(); }
void op_empty(bool& r, const F& f) { r = f.empty(); }
void op_size_valid(bool& r, const F& f) { r = f.size_valid(); }
void op_equal(bool& r, const F& f, const F& g) { r = f == g; }
void op_not_equal(bool& r, const F& f, const F& g) { r = f != g; }
void op_insert(I& r, F& f, I& p, const val& v) { r = f.insert(p, v); }
void op_erase(I& r, F& f, I& p) { r = f.erase(p); }
void op_erase_range(I& r, F& f, I& p, I& q) { r = f.erase(p, q); }
void op_splice_all(I& r, F& f, I& p, F& g) { r = f.splice(p, g); }
void op_splice_one(I& r, F& f, I& p, F& g, I& q) { r = f.splice(p, g, q); }
void op_splice_range(I& r, F& f, I& p, F& g, Ch& a, Ch& b) { r = f.splice(p, g, a, b); }
void op_splice_count(I& r, F& f, I& p, F& g, Ch& a, Ch& b, std::size_t& n) { r = f.splice(p, g, a, b, n); }
void op_insert_parent(I& r, F& f, Ch& a, Ch& b, const val& v) { r = f.insert_parent(a, b, v); }
void op_insert_range(I& r, F& f, I& p, CCh& a, CCh& b) { r = f.insert(p, a, b); }
void op_reverse(F& f, Ch& a, Ch& b) { f.reverse(a, b); }
void op_push_front(F& f, const val& v) { f.push_front(v); }
void op_push_back(F& f, const val& v) { f.push_back(v); }
void op_pop_front(F& f) { f.pop_front(); }
void op_pop_back(F& f) { f.pop_back(); }
void op_child_push_front(F& f, I& p, const val& v) { child_adaptor<F>(f, p).push_front(v); }
void op_child_push_back(F& f, I& p, const val& v) { child_adaptor<F>(f, p).push_back(v); }
void op_child_pop_front(F& f, I& p) { child_adaptor<F>(f, p).pop_front(); }
void op_child_pop_back(F& f, I& p) { child_adaptor<F>(f, p).pop_back(); }
void op_child_front(const val*& r, F& f, I& p) { r = &child_adaptor<F>(f, p).front(); }
void op_child_back(const val*& r, F& f, I& p) { r = &child_adaptor<F>(f, p).back(); }
void op_front(const val*& r, F& f) { r = &f.front(); }
void op_back(const val*& r, F& f) { r = &f.back(); }
void op_cfront(const val*& r, const F& f) { r = &f.front(); }
void op_cback(const val*& r, const F& f) { r = &f.back(); }
void op_root(I& r, F& f) { r = f.root(); }
void op_begin(I& r, F& f) { r = f.begin(); }
void op_end(I& r, F& f) { r = f.end(); }
void op_croot(CI& r, const F& f) { r = f.root(); }
void op_cbegin(CI& r, const F& f) { r = f.begin(); }
void op_cend(CI& r, const F& f) { r = f.end(); }
void op_has_children(bool& r, I& p) { r = has_children(p); }
void op_find_parent(I& r, I& p) { r = find_parent(p); }
void op_child_begin(Ch& r, I& p) { r = child_begin(p); }
void op_child_end(Ch& r, I& p) { r = child_end(p); }
void op_range_begin(Ch& r, I& p) { r = child_range(p).begin(); }
void op_range_end(Ch& r, I& p) { r = child_range(p).end(); }
void op_leading_of(I& r, I& p) { r = leading_of(p); }
void op_trailing_of(I& r, I& p) { r = trailing_of(p); }
void op_pivot_of(I& r, I& p) { r = pivot_of(p); }
void op_equal_node(bool& r, I& p, I& q) { r = p.equal_node(q); }

// whole passes over a forest: user code sees each value that they visit
void visit(val&, bool);
void visit(const val&, bool);
void visit(val&, std::ptrdiff_t);
void visit(const val&, std::ptrdiff_t);
void pass_full(F& f) {
    for (I i = f.begin(), l = f.end(); i != l; ++i) visit(*i, is_leading(i));
}
void pass_cfull(const F& f) {
    for (CI i = f.begin(), l = f.end(); i != l; ++i) visit(*i, is_leading(i));
}
void pass_rev(F& f) {
    for (Rev i = f.rbegin(), l = f.rend(); i != l; ++i) visit(*i, is_leading(i));
}
void pass_crev(const F& f) {
    for (CRev i = f.rbegin(), l = f.rend(); i != l; ++i) visit(*i, is_leading(i));
}
void pass_rev_range(F& f) {
    auto x = reverse_fullorder_range(f);
    for (auto i = x.begin(), l = x.end(); i != l; ++i) visit(*i, is_leading(i));
}
void pass_rev_back(F& f) { // from the end of the reverse order back to its beginning
    for (Rev i = f.rend(), l = f.rbegin(); i != l;) {
        --i;
        visit(*i, is_leading(i));
    }
}
void pass_pre(F& f) {
    for (auto& v : preorder_range(f)) visit(v, true);
}
void pass_cpre(const F& f) {
    for (auto& v : preorder_range(f)) visit(v, true);
}
void pass_post(F& f) {
    for (auto& v : postorder_range(f)) visit(v, false);
}
void pass_cpost(const F& f) {
    for (auto& v : postorder_range(f)) visit(v, false);
}
void pass_pre_back(F& f) {
    for (auto r = preorder_range(f); r._l != r._f;) {
        --r._l;
        visit(*r._l, true);
    }
}
void pass_post_back(F& f) {
    for (auto r = postorder_range(f); r._l != r._f;) {
        --r._l;
        visit(*r._l, false);
    }
}
void pass_depth(F& f) {
    auto x = depth_range(f);
    for (auto i = x.begin(), l = x.end(); i != l; ++i)
        if (is_leading(i)) visit(*i, i.depth());
}
void pass_cdepth(const F& f) {
    auto x = depth_range(f);
    for (auto i = x.begin(), l = x.end(); i != l; ++i)
        if (is_leading(i)) visit(*i, i.depth());
}
void pass_children(F& f) {
    for (auto& v : child_range(f.root())) visit(v, true);
}
void pass_children_back(F& f) {
    for (auto r = child_range(f.root()); r._l != r._f;) {
        --r._l;
        visit(*r._l, true);
    }
}
void pass_grandchildren(F& f) {
    for (auto& v : child_range(f.begin())) visit(v, true);
}
void pass_rev_children(F& f) { // the children in reverse order, of the last node of the forest
    for (auto& v : child_range(f.rbegin())) visit(v, true);
}
void pass_filter(F& f) {
    auto x = filter_fullorder_range(f, keep());
    for (auto i = x.begin(), l = x.end(); i != l; ++i) visit(*i, is_leading(i));
}
void pass_cfilter(const F& f) {
    auto x = filter_fullorder_range(f, keep());
    for (auto i = x.begin(), l = x.end(); i != l; ++i) visit(*i, is_leading(i));
}

// single steps
#define STEPS(name, X)                                       \
    void name##_inc(X& x) { ++x; }                           \
    void name##_dec(X& x) { --x; }                           \
    void name##_inc_post(X& r, X& x) { r = x++; }            \
    void name##_dec_post(X& r, X& x) { r = x--; }            \
    void name##_eq(bool& r, X& x, X& y) { r = x == y; }      \
    void name##_ne(bool& r, X& x, X& y) { r = x != y; }      \
    void name##_at(const val*& r, X& x) { r = &*x; }         \
    void name##_copy(X& r, X& x) { ::new (static_cast<void*>(&r)) X(x); }
#define BASED(name, X, B)                                    \
    STEPS(name, X)                                           \
    void name##_from(X& r, B& x) { ::new (static_cast<void*>(&r)) X(x); } \
    void name##_base(B& r, X& x) { r = x.base(); }
STEPS(it, I)
STEPS(fil, Fil)
STEPS(cfil, CFil)
STEPS(cit, CI)
void cit_from(CI& r, I& x) { ::new (static_cast<void*>(&r)) CI(x); }
BASED(child, Ch, I)
BASED(cchild, CCh, CI)
BASED(pre, Pre, I)
BASED(cpre, CPre, CI)
BASED(post, Post, I)
BASED(cpost, CPost, CI)
BASED(rev, Rev, I)
BASED(crev, CRev, CI)
BASED(depth, Dep, I)
BASED(cdepth, CDep, CI)
void cchild_conv(CCh& r, Ch& x) { ::new (static_cast<void*>(&r)) CCh(x); }
void cpre_conv(CPre& r, Pre& x) { ::new (static_cast<void*>(&r)) CPre(x); }
void cpost_conv(CPost& r, Post& x) { ::new (static_cast<void*>(&r)) CPost(x); }
void crev_conv(CRev& r, Rev& x) { ::new (static_cast<void*>(&r)) CRev(x); }
void depth_get(std::ptrdiff_t& r, Dep& x) { r = x.depth(); }
void cdepth_get(std::ptrdiff_t& r, CDep& x) { r = x.depth(); }
void fil_from(Fil& r, I& a, I& b) { ::new (static_cast<void*>(&r)) Fil(a, b, keep()); }
void fil_base(I& r, Fil& x) { r = x.base(); }
void cfil_from(CFil& r, CI& a, CI& b) { ::new (static_cast<void*>(&r)) CFil(a, b, keep()); }
void cfil_base(CI& r, CFil& x) { r = x.base(); }
void crev_flip(CRev& x) { pivot(x); }
void crev_leading(bool& r, CRev& x) { r = is_leading(x); }
void rev_flip(Rev& x) { pivot(x); }
void rev_leading(bool& r, Rev& x) { r = is_leading(x); }
} // namespace w
