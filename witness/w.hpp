// Opaque user types and callables: everything is declared and nothing is defined, so that every
// use of them by the library stays visible as a call to user code.
#ifndef VERIF_W_HPP
#define VERIF_W_HPP
#include <cstddef>
#include <exception>
#include <utility>
namespace w {
struct val { // copyable user value
    val() noexcept;
    val(int) noexcept;
    val(const val&);
    val(val&&) noexcept;
    val& operator=(const val&);
    val& operator=(val&&) noexcept;
    ~val();
    bool operator<(const val&) const;
    bool operator==(const val&) const;
    int i;
};
struct mov { // move-only user value
    mov() noexcept;
    mov(const mov&) = delete;
    mov(mov&&) noexcept;
    mov& operator=(const mov&) = delete;
    mov& operator=(mov&&) noexcept;
    ~mov();
    int i;
};
// a copyable user function object of any signature
template <class R, class... A>
struct fn {
    fn();
    fn(const fn&);
    fn(fn&&) noexcept;
    ~fn();
    R operator()(A...);
    R operator()(A...) const;
    int i;
};
// move-only
template <class R, class... A>
struct mfn {
    mfn();
    mfn(mfn&&) noexcept;
    ~mfn();
    R operator()(A...);
    int i;
};
template <class R, class... A>
struct nfn { // noexcept
    nfn();
    nfn(const nfn&);
    nfn(nfn&&) noexcept;
    ~nfn();
    R operator()(A...) noexcept;
    int i;
};
// a user executor
struct exec {
    exec();
    exec(const exec&);
    exec(exec&&) noexcept;
    exec& operator=(const exec&);
    ~exec();
    template <class F>
    void operator()(F&& f) const;
    int i;
};
// executors and functions that mark what they are given to
struct exec_all : exec {};
struct exec_any : exec {};
template <class T>
void sink(T&&);
template <class T>
T make();
} // namespace w
#endif
