// Elements and helpers shared by C12 and C13.
#pragma once
#include "mc.hpp"
#include <array>
#include <compare>
#include <memory>
#include <string>
#include <tuple>
#include <xme/container/pair.hpp>
#include <xme/container/tuple.hpp>
namespace tp {
//! knows how it came to be
struct V {
    int v = 0, copies = 0, moves = 0;
    V() = default;
    V(int x) : v(x) {}
    V(const V& o) : v(o.v), copies(o.copies + 1), moves(o.moves) {}
    V(V&& o) noexcept : v(o.v), copies(o.copies), moves(o.moves + 1) { o.v = -1; }
    V& operator=(const V& o) {
        v      = o.v;
        copies = o.copies + 1;
        moves  = o.moves;
        return *this;
    }
    V& operator=(V&& o) noexcept {
        v      = o.v;
        copies = o.copies;
        moves  = o.moves + 1;
        if(&o != this)
            o.v = -1;
        return *this;
    }
    operator int() const { return v; }
    bool operator==(const V& o) const { return v == o.v; }
    auto operator<=>(const V& o) const { return v <=> o.v; }
};
//! cannot be copied
struct MO {
    int v = 0, moves = 0;
    MO(int x) : v(x) {}
    MO(MO&& o) noexcept : v(o.v), moves(o.moves + 1) { o.v = -1; }
    MO& operator=(MO&& o) noexcept {
        v     = o.v;
        moves = o.moves + 1;
        o.v   = -1;
        return *this;
    }
};
inline int val(const V& x) { return x.v; }
inline int val(const MO& x) { return x.v; }
inline int val(int x) { return x; }
inline int val(long x) { return (int)x; }
inline int val(short x) { return x; }
inline int val(double x) { return (int)x; }
template<typename T>
inline constexpr bool tracks = std::is_same_v<std::remove_cvref_t<T>, V>;
template<typename T>
using size_c = std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<T>>>;
using xme::get;
using std::get;
//! the I-th element, whatever tuple it is in (lvalue)
template<std::size_t I, typename T>
auto& at(T& t) {
    return get<I>(t);
}
template<typename T>
constexpr std::size_t arity = std::tuple_size_v<std::remove_cvref_t<T>>;
template<std::size_t N, typename F>
constexpr void each(F&& f) {
    [&]<std::size_t... I>(std::index_sequence<I...>) { (f(std::integral_constant<std::size_t, I>{}), ...); }(std::make_index_sequence<N>{});
}
//! values as digits
template<typename F>
void all_values(std::size_t n, int base, F f) {
    std::vector<int> d(n, 0);
    for(;;) {
        f(d);
        std::size_t i = 0;
        while(i < n && ++d[i] == base)
            d[i++] = 0;
        if(i == n)
            return;
    }
}
inline std::string show(const std::vector<int>& v) {
    std::string s = "(";
    for(std::size_t i = 0; i < v.size(); ++i)
        s += (i ? " " : "") + std::to_string(v[i]);
    return s + ")";
}
//! objects behind the reference elements of a tuple
struct Store {
    V v[8];
    int i[8];
    V& ref(std::size_t k, const V*) { return v[k]; }
    int& ref(std::size_t k, const int*) { return i[k]; }
};
//! makes a T whose elements have these values; reference elements refer into s
template<typename T>
struct Make;
template<typename E>
E elem(int x, Store& s, std::size_t k) {
    if constexpr(std::is_reference_v<E>) {
        using O = std::remove_cvref_t<E>;
        auto& r = s.ref(k, static_cast<const O*>(nullptr));
        r       = O(x);
        return static_cast<E>(r);
    }
    else
        return E(x);
}
template<template<typename...> class P, typename... E>
struct Make<P<E...>> {
    static P<E...> from(const std::vector<int>& v, Store& s) {
        return [&]<std::size_t... I>(std::index_sequence<I...>) { return P<E...>{elem<E>(v[I], s, I)...}; }(std::index_sequence_for<E...>{});
    }
};
template<typename E, std::size_t N>
struct Make<std::array<E, N>> {
    static std::array<E, N> from(const std::vector<int>& v, Store& s) {
        return [&]<std::size_t... I>(std::index_sequence<I...>) { return std::array<E, N>{elem<E>(v[I], s, I)...}; }(std::make_index_sequence<N>{});
    }
};
template<typename T, std::size_t I>
using elem_t = std::tuple_element_t<I, std::remove_cvref_t<T>>;
}  // namespace tp
