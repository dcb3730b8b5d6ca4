// Element types of several shapes, and ranges.
#pragma once
#include "track.hpp"
#include <iterator>
#include <string>
#include <type_traits>

namespace ty {
// ---- element types of other shapes ----------------------------------------------------------------
//! trivially copyable, a word and a half wide
struct Pod12 {
    int v, not_v, thrice;
    Pod12() : Pod12(0) {}
    Pod12(int x) : v(x), not_v(~x), thrice(3 * x) {}
    int id() const { return not_v == ~v && thrice == 3 * v ? v : -99; }
};
//! trivially copyable, unaligned and odd
struct Pod3 {
    unsigned char b[3];
    Pod3(int x) : b{(unsigned char)x, (unsigned char)(x >> 8), (unsigned char)(x >> 16)} {}
    int id() const { return b[0] | b[1] << 8 | b[2] << 16; }
};
static_assert(sizeof(Pod3) == 3 && std::is_trivially_copyable_v<Pod3> && std::is_trivially_copyable_v<Pod12>);
//! owns memory when long, and points into itself when short
struct Str {
    static constexpr bool kMarksMoved = true;
    std::string s;
    Str(int x) : s(x % 3 ? std::to_string(x) : std::string(40, '0') + std::to_string(x)) {}
    Str(const Str&) = default;
    Str(Str&& o) noexcept : s(std::move(o.s)) { o.s = ""; }
    Str& operator=(const Str&) = default;
    Str& operator=(Str&& o) noexcept {
        if(this != &o)
            s = std::move(o.s), o.s = "";
        return *this;
    }
    int id() const { return s.empty() ? tk::kMoved : std::stoi(s); }
};
//! overloads what generic code must not use
struct Awkward : tk::Val {
    static constexpr bool kMarksMoved = true;
    using tk::Val::Val;
    Awkward* operator&() const                = delete;
    template<typename T> void operator,(T&&) const = delete;
};
//! a single pass range of ints: copies of its iterators share the position
struct Once {
    struct Sent {};
    struct It {
        using value_type        = int;
        using difference_type   = std::ptrdiff_t;
        using iterator_category = std::input_iterator_tag;
        using iterator_concept  = std::input_iterator_tag;
        Once* o = nullptr;
        int operator*() const { return o->v[o->at]; }
        It& operator++() {
            ++o->at;
            return *this;
        }
        void operator++(int) { ++o->at; }
        bool operator==(Sent) const { return o->at == o->v.size(); }
    };
    std::vector<int> v;
    std::size_t at = 0;
    It begin() { return {this}; }
    Sent end() { return {}; }
};
static_assert(std::input_iterator<Once::It> && std::sentinel_for<Once::Sent, Once::It>);
}  // namespace ty
