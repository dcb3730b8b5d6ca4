// C38: containers, views and iterators as ranges: every algorithm on every small contents gives what it gives on standard containers.
#include "mc.hpp"
#include <algorithm>
#include <forward_list>
#include <list>
#include <numeric>
#include <ranges>
#include <vector>
#include <range/v3/all.hpp>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/container/pair.hpp>
#include <xme/container/tuple.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>

//! a value and where it was, so that stability shows
struct Tok {
    int k = 0, tag = 0;
    bool operator==(const Tok& o) const { return k == o.k; }
    bool operator<(const Tok& o) const { return k < o.k; }
    auto operator<=>(const Tok& o) const { return k <=> o.k; }
};
using Sig   = std::vector<long>;
using Plain = std::vector<Tok>;

// ---- the ranges ---------------------------------------------------------------------------------
template<typename R>
void put(Sig& s, R&& r) {
    for(const Tok& t : r)
        s.push_back(t.k * 1000 + t.tag);
    s.push_back(-7);
}
template<typename R, typename I>
long at(R& r, I i) {
    long n = 0;
    auto j = r.begin();
    for(; j != i; ++j)
        if(++n > 100000)
            return -1;
    return n;
}

//! a reversed range, the right way round again for those who look at the base
template<typename It>
struct Sub {
    It b, e;
    It begin() const { return b; }
    It end() const { return e; }
};
template<typename It>
Sub(It, It) -> Sub<It>;

// every Kind makes a range of some contents, and its standard counterpart of the same strength
struct ArrayKind {
    static constexpr const char* name = "Array";
    xme::Array<Tok> a;
    explicit ArrayKind(const Plain& p) : a(p.begin(), p.end()) {}
    auto& range() { return a; }
    static std::vector<Tok> like(const Plain& p) { return p; }
};
struct SpareArrayKind : ArrayKind {
    static constexpr const char* name = "Array with spare capacity";
    explicit SpareArrayKind(const Plain& p) : ArrayKind(Plain{}) {
        a.reserve(p.size() + 3);
        for(const Tok& t : p)
            a.push_back(t);
    }
};
struct ConstArrayKind : ArrayKind {
    static constexpr const char* name = "const Array";
    using ArrayKind::ArrayKind;
    const auto& range() { return a; }
};
struct ListKind {
    static constexpr const char* name = "LinkedList";
    xme::LinkedList<Tok> l;
    explicit ListKind(const Plain& p) : l(p.begin(), p.end()) {}
    auto& range() { return l; }
    static std::forward_list<Tok> like(const Plain& p) { return {p.begin(), p.end()}; }
};
struct ConstListKind : ListKind {
    static constexpr const char* name = "const LinkedList";
    using ListKind::ListKind;
    const auto& range() { return l; }
};
struct HeapKind {
    static constexpr const char* name = "Heap";
    xme::Heap<Tok> h;
    explicit HeapKind(const Plain& p) : h(p.begin(), p.end()) {}
    const auto& range() { return h; }
    static std::vector<Tok> like(const Plain& p) {
        HeapKind k(p);
        std::vector<Tok> v;
        for(std::size_t i = 0; i < k.h.size(); ++i)
            v.push_back(k.h.begin()[i]);
        return v;
    }
};
struct ViewKind {
    static constexpr const char* name = "ArrayView";
    Plain store;
    xme::ArrayView<Tok> v;
    explicit ViewKind(const Plain& p) : store(p), v(store) {}
    ViewKind(const ViewKind&) = delete;
    auto& range() { return v; }
    static std::vector<Tok> like(const Plain& p) { return p; }
};
struct ConstViewKind {
    static constexpr const char* name = "ArrayView of const";
    Plain store;
    xme::ArrayView<const Tok> v;
    explicit ConstViewKind(const Plain& p) : store(p), v(store) {}
    ConstViewKind(const ConstViewKind&) = delete;
    auto& range() { return v; }
    static std::vector<Tok> like(const Plain& p) { return p; }
};
struct ReverseArrayKind {
    static constexpr const char* name = "reversed Array";
    using R = xme::ReverseIterator<xme::Array<Tok>::iterator>;
    xme::Array<Tok> a;
    Sub<R> s;
    explicit ReverseArrayKind(const Plain& p) : a(p.rbegin(), p.rend()), s{R(a.end()), R(a.begin())} {}
    ReverseArrayKind(const ReverseArrayKind&) = delete;
    auto& range() { return s; }
    static std::vector<Tok> like(const Plain& p) { return p; }
};
struct ReverseListKind {
    static constexpr const char* name = "reversed std::list";
    using R = xme::ReverseIterator<std::list<Tok>::iterator>;
    std::list<Tok> a;
    Sub<R> s;
    explicit ReverseListKind(const Plain& p) : a(p.rbegin(), p.rend()), s{R(a.end()), R(a.begin())} {}
    ReverseListKind(const ReverseListKind&) = delete;
    auto& range() { return s; }
    static std::list<Tok> like(const Plain& p) { return {p.begin(), p.end()}; }
};
struct ConstIteratorKind {
    static constexpr const char* name = "std::vector by ConstIterator";
    using R = xme::ConstIterator<std::vector<Tok>::iterator>;
    std::vector<Tok> a;
    Sub<R> s;
    explicit ConstIteratorKind(const Plain& p) : a(p), s{R(a.begin()), R(a.end())} {}
    ConstIteratorKind(const ConstIteratorKind&) = delete;
    auto& range() { return s; }
    static std::vector<Tok> like(const Plain& p) { return p; }
};

// ---- the algorithms -------------------------------------------------------------------------------
const auto odd = [](const Tok& t) { return t.k % 2 == 1; };
const auto big = [](const Tok& t) { return t.k > 0; };
const auto same3 = [](const Tok& a, const Tok& b) { return a.k % 2 == b.k % 2; };
template<typename R>
using It = decltype(std::declval<R&>().begin());
template<typename R>
constexpr bool bidi = std::bidirectional_iterator<It<R>>;
template<typename R>
constexpr bool ra = std::random_access_iterator<It<R>>;

//! every operation of the iterators between every two positions
template<typename R>
void steps(R& r, Sig& s) {
    auto name = [&](const It<R>& i) { return i == r.end() ? -5L : i->k * 1000L + (*i).tag; };
    auto both = [&](const It<R>& i, const It<R>& j) { s.push_back(name(i)), s.push_back(name(j)); };
    for(auto i = r.begin(); i != r.end();) {
        auto j = i, k = i, l = i;
        both(j++, ++k), both(j, k);
        s.push_back((j == k) * 4 + (j != k) * 2 + (l == i)), s.push_back((j == i) * 2 + (j != i));
        if constexpr(bidi<R>) {
            if(i != r.begin())
                both(l--, --(k = i)), both(l, k);
        }
        i = j;
    }
    if constexpr(ra<R>) {
        const long n = r.end() - r.begin();
        if(n > 12)
            return;
        for(long a = 0; a <= n; ++a)
            for(long b = 0; b <= n; ++b) {
                const auto i = r.begin() + a, j = b + r.begin();
                auto k = i, l = i;
                both(i, j), both(k += b - a, l -= a - b), both(k, l), both(i + (b - a), i - (a - b)), both((b - a) + i, j);
                s.push_back(i - j), s.push_back(j - i), s.push_back(r.end() - i);
                s.push_back((i < j) * 32 + (i <= j) * 16 + (i > j) * 8 + (i >= j) * 4 + (i == j) * 2 + (i != j));
                if(b < n)
                    s.push_back(i[b - a].k * 1000 + i[b - a].tag);
            }
    }
}
#define B r.begin(), r.end()
//! reads only; by iterators, by ranges of the standard library, by ranges of range-v3
struct Reads {
    template<typename R>
    static void run(R& r, Sig& s, int seed) {
        const Tok v{seed % 3, 0};
        const Plain two{{1, 0}, {seed % 3, 0}}, sub{{seed % 2, 0}};
        auto pos = [&](auto i) { s.push_back(at(r, i)); };
        // iterators
        s.push_back(std::all_of(B, odd) * 4 + std::any_of(B, odd) * 2 + std::none_of(B, odd));
        s.push_back(std::count(B, v));
        s.push_back(std::count_if(B, odd));
        pos(std::find(B, v)), pos(std::find_if(B, odd)), pos(std::find_if_not(B, odd));
        pos(std::find_first_of(B, two.begin(), two.end())), pos(std::adjacent_find(B));
        pos(std::search(B, two.begin(), two.end())), pos(std::find_end(B, sub.begin(), sub.end())), pos(std::search_n(B, 2, v));
        pos(std::min_element(B)), pos(std::max_element(B)), pos(std::minmax_element(B).second), pos(std::is_sorted_until(B));
        s.push_back(std::is_sorted(B) * 2 + std::is_partitioned(B, odd));
        s.push_back(std::accumulate(B, 0UL, [](unsigned long a, const Tok& t) { return a * 3 + t.k; }));
        s.push_back(std::equal(B, two.begin(), two.end()) * 2 + std::lexicographical_compare(B, two.begin(), two.end()));
        s.push_back(std::distance(B));
        s.push_back(std::is_permutation(B, r.begin(), r.end()));
        Plain out;
        std::copy(B, std::back_inserter(out)), put(s, out), out.clear();
        std::copy_if(B, std::back_inserter(out), odd), put(s, out), out.clear();
        std::unique_copy(B, std::back_inserter(out)), put(s, out), out.clear();
        std::remove_copy(B, std::back_inserter(out), v), put(s, out), out.clear();
        if(std::is_sorted(B) && std::is_sorted(two.begin(), two.end())) {
            std::merge(B, two.begin(), two.end(), std::back_inserter(out)), put(s, out), out.clear();
            std::ranges::set_union(r, two, std::back_inserter(out)), put(s, out), out.clear();
            s.push_back(std::ranges::includes(r, sub));
        }
        std::rotate_copy(r.begin(), std::next(r.begin(), std::distance(B) / 2), r.end(), std::back_inserter(out)), put(s, out), out.clear();
        std::transform(B, r.begin(), std::back_inserter(out), [](const Tok& a, const Tok& b) { return Tok{a.k + b.k, a.tag}; }), put(s, out);
        // ranges of the standard library
        s.push_back(std::ranges::count(r, seed % 3, &Tok::k));
        pos(std::ranges::find(r, seed % 3, &Tok::k)), pos(std::ranges::find_if(r, big)), pos(std::ranges::adjacent_find(r, same3));
        pos(std::ranges::max_element(r, {}, &Tok::k)), pos(std::ranges::min_element(r, std::greater<>(), &Tok::k));
        pos(std::ranges::search(r, two).begin()), pos(std::ranges::find_end(r, sub).begin()), pos(std::ranges::find_first_of(r, two));
        pos(std::ranges::mismatch(r, two).in1), pos(std::ranges::is_sorted_until(r));
        s.push_back(std::ranges::equal(r, two) * 2 + std::ranges::lexicographical_compare(r, two));
        s.push_back(std::ranges::distance(r));
        out.clear(), std::ranges::copy(r, std::back_inserter(out)), put(s, out);
        out.clear(), std::ranges::copy_if(r, std::back_inserter(out), odd), put(s, out);
        out.clear(), std::ranges::unique_copy(r, std::back_inserter(out)), put(s, out);
        if(std::ranges::is_partitioned(r, odd))
            pos(std::ranges::partition_point(r, odd));
        if(std::ranges::is_sorted(r)) {
            pos(std::ranges::lower_bound(r, v)), pos(std::ranges::upper_bound(r, v)), pos(std::lower_bound(B, v)), pos(std::equal_range(B, v).second);
            s.push_back(std::ranges::binary_search(r, v));
        }
        // range-v3
        pos(::ranges::find(r, seed % 3, &Tok::k)), pos(::ranges::find_if(r, odd)), pos(::ranges::max_element(r)), pos(::ranges::adjacent_find(r)), pos(::ranges::is_sorted_until(r));
        s.push_back(::ranges::count(r, v) * 8 + ::ranges::equal(r, two) * 4 + ::ranges::all_of(r, odd) * 2 + ::ranges::is_sorted(r));
        s.push_back(::ranges::accumulate(r, 0UL, [](unsigned long a, const Tok& t) { return a * 3 + t.k; }));
        s.push_back(::ranges::distance(r));
        out.clear(), ::ranges::copy(r, ::ranges::back_inserter(out)), put(s, out);
        if constexpr(bidi<R>) {
            out.clear(), std::reverse_copy(B, std::back_inserter(out)), put(s, out);
            out.clear(), std::ranges::reverse_copy(r, std::back_inserter(out)), put(s, out);
            out.clear(), std::copy(std::make_reverse_iterator(r.end()), std::make_reverse_iterator(r.begin()), std::back_inserter(out)), put(s, out);
        }
        steps(r, s);
        if constexpr(ra<R>) {
            s.push_back(std::is_heap(B) * 2 + (r.end() - r.begin()));
            pos(std::is_heap_until(B));
            Plain three(3);
            std::partial_sort_copy(B, three.begin(), three.end()), put(s, three);
        }
    }
};
//! writes in place
struct Writes {
    static constexpr int Ways = 38;
    template<typename R>
    static bool run(R& r, Sig& s, int seed, int way) {
        const Tok v{seed % 3, 77}, w{2, 78};
        auto pos = [&](auto i) { s.push_back(at(r, i)); };
        const long n = std::distance(B);
        auto mid = [&] { return std::next(r.begin(), n / 2); };
        int c = 0;
        switch(way) {
        case 0: std::fill(B, v); break;
        case 1: std::replace(B, v, w); break;
        case 2: std::replace_if(B, odd, w); break;
        case 3: std::generate(B, [&] { return Tok{c * 2, c++}; }); break;
        case 4: std::transform(B, r.begin(), [](Tok t) { return Tok{t.k + 1, t.tag}; }); break;
        case 5: {
            auto e = std::remove(B, v);
            pos(e);
            std::fill(e, r.end(), w);
            break;
        }
        case 6: {
            auto e = std::unique(B);
            pos(e);
            std::fill(e, r.end(), w);
            break;
        }
        case 7: pos(std::rotate(r.begin(), mid(), r.end())); break;
        case 8: {
            auto e = std::partition(B, odd);
            s.push_back(std::all_of(r.begin(), e, odd) && std::none_of(e, r.end(), odd));
            pos(e);
            break;
        }
        case 9: {
            Plain o(n, v);
            std::swap_ranges(B, o.begin()), put(s, o);
            break;
        }
        case 10:
            if(n)
                std::iter_swap(r.begin(), mid());
            break;
        case 11: {
            Plain o;
            std::move(B, std::back_inserter(o)), put(s, o);
            break;
        }
        case 12: std::ranges::fill(r, v); break;
        case 13: std::ranges::replace(r, seed % 3, w, &Tok::k); break;
        case 14: {
            auto e = std::ranges::remove(r, seed % 3, &Tok::k);
            pos(e.begin());
            std::ranges::fill(e, w);
            break;
        }
        case 15: {
            auto e = std::ranges::unique(r);
            pos(e.begin());
            std::ranges::fill(e, w);
            break;
        }
        case 16: pos(std::ranges::rotate(r, mid()).begin()); break;
        case 17: std::ranges::for_each(r, [&](Tok& t) { t.k += ++c; }); break;
        case 18: std::ranges::generate(r, [&] { return Tok{c * 2, c++}; }); break;
        case 19: {
            Plain o(n, v);
            std::ranges::swap_ranges(r, o), put(s, o);
            break;
        }
        case 20: ::ranges::fill(r, v); break;
        case 21: {
            auto e = ::ranges::remove(r, v);
            pos(e);
            std::fill(e, r.end(), w);
            break;
        }
        case 22: pos(::ranges::rotate(r, mid()).begin()); break;
        case 23: ::ranges::transform(r, r.begin(), [](Tok t) { return Tok{t.k + 1, t.tag}; }); break;
        default:
            if constexpr(bidi<R>) {
                switch(way) {
                case 24: std::reverse(B); return true;
                case 25: std::ranges::reverse(r); return true;
                case 26: ::ranges::reverse(r); return true;
                case 27: pos(std::stable_partition(B, odd)); return true;
                case 28: s.push_back(std::next_permutation(B)); return true;
                case 29: s.push_back(std::ranges::prev_permutation(r).found); return true;
                case 30: {
                    Plain o(B);
                    std::reverse(o.begin(), o.end());
                    pos(std::copy_backward(o.begin(), o.begin() + n / 2, r.end()));
                    return true;
                }
                case 31:
                    if constexpr(ra<R>) {
                        std::sort(r.begin(), mid()), std::sort(mid(), r.end());
                        for(auto i = r.begin(); i != r.end(); ++i)
                            i->tag = ++c;
                    }
                    else {
                        for(auto i = r.begin(); i != r.end(); ++i)
                            i->k = c++ < n / 2 ? c : c - n / 2;
                    }
                    std::inplace_merge(r.begin(), mid(), r.end());
                    return true;
                }
                if constexpr(ra<R>) {
                    switch(way) {
                    case 32: std::stable_sort(B); return true;
                    case 33: std::ranges::stable_sort(r, std::greater<>(), &Tok::k); return true;
                    case 34: ::ranges::stable_sort(r); return true;
                    case 35:
                        std::sort(B, [](const Tok& a, const Tok& b) { return a.k * 1000 + a.tag < b.k * 1000 + b.tag; });
                        return true;
                    case 36:
                        std::ranges::sort(r, {}, [](const Tok& t) { return -(t.k * 1000 + t.tag); });
                        return true;
                    case 37:
                        std::make_heap(B);
                        s.push_back(std::is_heap(B));
                        std::sort_heap(B);
                        s.push_back(std::is_sorted(B));
                        ::ranges::sort(r, {}, [](const Tok& t) { return t.k * 1000 + t.tag; });
                        return true;
                    }
                }
            }
            return false;
        }
        return true;
    }
};
//! adaptors of both libraries, over the range itself
struct Adapts {
    template<typename R>
    static void run(R& r, Sig& s, int seed) {
        namespace v = std::views;
        namespace w = ::ranges::views;
        const int n = seed % 5;
        put(s, r | v::filter(odd));
        put(s, r | v::transform([](const Tok& t) { return Tok{t.k + 5, t.tag}; }));
        put(s, r | v::take(n)), put(s, r | v::drop(n));
        put(s, r | v::take_while(odd)), put(s, r | v::drop_while(odd));
        put(s, r | v::filter(big) | v::transform([](const Tok& t) { return Tok{t.k * 2, t.tag}; }) | v::take(2));
        put(s, v::all(r)), put(s, std::ranges::subrange(r.begin(), r.end()));
        put(s, v::counted(r.begin(), std::min<long>(n, std::ranges::distance(r))));
        if constexpr(bidi<R>) {
            put(s, r | v::reverse), put(s, r | v::drop(n) | v::reverse | v::filter(odd));
            put(s, r | w::reverse);
        }
        if constexpr(ra<R>) {
            auto d = r | v::drop(n);
            s.push_back(d.size());
            for(std::size_t i = 0; i < d.size(); ++i)
                s.push_back(d[i].k * 1000 + d[i].tag);
            auto e = r | w::drop(n);
            s.push_back(e.size());
        }
        put(s, r | w::filter(odd)), put(s, r | w::take(n)), put(s, r | w::drop(n)), put(s, r | w::unique);
        put(s, r | w::transform([](const Tok& t) { return Tok{t.k + 5, t.tag}; }));
        put(s, w::concat(r, r)), put(s, r | w::stride(2));
        if(r.begin() != r.end())
            put(s, r | w::cycle | w::take(9));
        for(auto&& [i, t] : w::enumerate(r))
            s.push_back(long(i) * 100000 + t.k * 1000 + t.tag);
        for(auto&& [a, b] : w::zip(r, r | w::drop(1)))
            s.push_back(a.k * 10 + b.k);
        for(auto&& c : r | w::chunk(2)) {
            long m = 1;
            for(auto&& t : c)
                m = m * 10 + t.k;
            s.push_back(m);
        }
        for(auto&& c : r | w::sliding(2))
            s.push_back(::ranges::distance(c));
        auto made = r | ::ranges::to<std::vector>();
        put(s, made);
    }
};

static int max_len() { return mc::thorough ? 9 : 6; }
//! every sequence up to a length, and longer ones of several shapes
template<typename F>
static void contents(F f) {
    for(int len = 0, all = 1; len <= max_len(); ++len, all *= 3)
        for(int c = 0; c < all; ++c) {
            Plain p;
            for(int i = 0, k = c; i < len; ++i, k /= 3)
                p.push_back({k % 3, i});
            f(p);
        }
    for(int len : {7, 16, 17, 33, 40, 65})
        for(int shape = 0; shape < 7; ++shape) {
            Plain p;
            for(int i = 0; i < len; ++i)
                p.push_back({shape == 0 ? i : shape == 1 ? len - i : shape == 2 ? 1 : shape == 3 ? i % 3 : shape == 4 ? std::min(i, len - i) : shape == 5 ? i * 7 % 11 : i < len - 1 ? i + 1 : 0, i});
            f(p);
        }
}
static std::string text(const Plain& p) {
    std::string t;
    for(const Tok& x : p)
        t += " " + std::to_string(x.k);
    return t;
}
template<typename What, typename K>
static void read_all() {
    contents([](const Plain& p) {
        for(int seed = 0; seed < 6; ++seed) {
            mc::begin_case();
            mc::log("%s of%s, seed %d", K::name, text(p).c_str(), seed);
            K k(p);
            auto like = K::like(p);
            Sig got, want;
            What::run(k.range(), got, seed);
            const auto& clike = like;
            if constexpr(std::is_const_v<std::remove_reference_t<decltype(k.range())>> || !std::output_iterator<It<decltype(k.range())>, Tok>)
                What::run(clike, want, seed);
            else
                What::run(like, want, seed);
            std::size_t i = 0;
            while(i < got.size() && i < want.size() && got[i] == want[i])
                ++i;
            REQUIRE(got == want, "an algorithm or adaptor gives something else than on a standard container (result %zu)", i);
            Sig a, b;
            put(a, k.range()), put(b, like);
            REQUIRE(a == b, "reading changed the range");
            mc::evaluated_once();
        }
    });
    mc::sample(mc::g_trail->log);
}
template<typename K>
static void write_all() {
    contents([](const Plain& p) {
        for(int seed = 0; seed < 3; ++seed)
            for(int way = 0; way < Writes::Ways; ++way) {
                mc::begin_case();
                mc::log("%s of%s, seed %d, algorithm %d", K::name, text(p).c_str(), seed, way);
                K k(p);
                auto like = K::like(p);
                Sig got, want;
                const bool does = Writes::run(k.range(), got, seed, way), should = Writes::run(like, want, seed, way);
                REQUIRE(does == should, "harness: the strengths differ");
                if(!does)
                    continue;
                REQUIRE(got == want, "an algorithm returns something else than on a standard container");
                Sig a, b;
                put(a, k.range()), put(b, like);
                REQUIRE(a == b, "an algorithm leaves something else than in a standard container");
                mc::evaluated_once();
            }
    });
    mc::sample(mc::g_trail->log);
}
//! two ranges of different kinds in one algorithm
template<typename K, typename L>
static void two() {
    auto one = [](auto& r, auto& q, Sig& s) {
        s.push_back(std::equal(r.begin(), r.end(), q.begin(), q.end()) * 4 + std::lexicographical_compare(r.begin(), r.end(), q.begin(), q.end()) * 2 + std::is_permutation(r.begin(), r.end(), q.begin(), q.end()));
        s.push_back(std::ranges::equal(r, q) * 2 + std::ranges::lexicographical_compare(r, q));
        s.push_back(::ranges::equal(r, q) * 2 + ::ranges::lexicographical_compare(r, q));
        s.push_back(at(r, std::search(r.begin(), r.end(), q.begin(), q.end())));
        s.push_back(at(q, std::ranges::mismatch(r, q).in2));
        s.push_back(at(r, std::ranges::find_first_of(r, q)));
        if(std::ranges::is_sorted(r) && std::ranges::is_sorted(q)) {
            Plain o;
            std::merge(r.begin(), r.end(), q.begin(), q.end(), std::back_inserter(o)), put(s, o);
            o.clear(), std::ranges::set_difference(r, q, std::back_inserter(o)), put(s, o);
        }
        for(auto&& [a, b] : ::ranges::views::zip(r, q))
            s.push_back(a.k * 10 + b.k);
    };
    auto small = [](auto f) {
        for(int len = 0, all = 1; len <= 3; ++len, all *= 3)
            for(int c = 0; c < all; ++c) {
                Plain p;
                for(int i = 0, k = c; i < len; ++i, k /= 3)
                    p.push_back({k % 3, i});
                f(p);
            }
    };
    small([&](const Plain& p) {
        small([&](const Plain& q) {
            mc::begin_case();
            mc::log("%s of%s and %s of%s", K::name, text(p).c_str(), L::name, text(q).c_str());
            K k(p);
            L l(q);
            const auto a = K::like(p);
            const auto b = L::like(q);
            Sig got, want;
            one(k.range(), l.range(), got);
            one(a, b, want);
            REQUIRE(got == want, "an algorithm over two ranges gives something else than on standard containers");
            mc::evaluated_once();
        });
    });
    mc::sample(mc::g_trail->log);
}

// ---- what they are ---------------------------------------------------------------------------------
enum Strength { Forward = 1, Bidirectional, RandomAccess };
struct Is {
    bool writes, sized, borrowed, view;
    int strength;
};
template<typename R, typename T>
static void is(const char* name, Is want) {
    mc::begin_case();
    mc::log("%s", name);
    namespace s = std::ranges;
    namespace v = ::ranges;
    REQUIRE(s::range<R> && s::forward_range<R> && s::common_range<R>, "%s is not a forward range", name);
    REQUIRE((s::output_range<R, T>) == want.writes, "writing is %s", want.writes ? "not possible" : "possible");
    REQUIRE(s::sized_range<R> == want.sized, "sized range: %d", s::sized_range<R>);
    REQUIRE(s::borrowed_range<R> == want.borrowed, "borrowed range: %d", s::borrowed_range<R>);
    REQUIRE(s::view<R> == want.view, "view: %d", s::view<R>);
    REQUIRE(1 + s::bidirectional_range<R> + s::random_access_range<R> == want.strength, "strength %d", 1 + s::bidirectional_range<R> + s::random_access_range<R>);
    REQUIRE(v::forward_range<R> && v::common_range<R> && (v::output_range<R, T>) == want.writes && v::sized_range<R> == want.sized && 1 + v::bidirectional_range<R> + v::random_access_range<R> == want.strength, "in range-v3 it is something else");
    using I = s::iterator_t<R>;
    using C = typename std::iterator_traits<I>::iterator_category;
    REQUIRE((std::is_base_of_v<std::bidirectional_iterator_tag, C>) == (want.strength > 1) && (std::is_base_of_v<std::random_access_iterator_tag, C>) == (want.strength > 2) && (std::is_base_of_v<std::forward_iterator_tag, C>), "iterator_category");
    REQUIRE((std::is_same_v<std::iter_value_t<I>, T>) && (std::is_same_v<std::remove_cvref_t<std::iter_reference_t<I>>, T>) && std::is_lvalue_reference_v<std::iter_reference_t<I>>, "value and reference");
    REQUIRE((std::is_same_v<typename std::iterator_traits<I>::value_type, T>) && (std::is_same_v<typename std::iterator_traits<I>::reference, std::iter_reference_t<I>>) && (std::is_same_v<std::iter_difference_t<I>, std::ptrdiff_t>), "iterator_traits of %s", __PRETTY_FUNCTION__);
    REQUIRE((std::is_const_v<std::remove_reference_t<std::iter_reference_t<I>>>) == !want.writes, "constness of the elements");
    REQUIRE((std::is_same_v<std::remove_cvref_t<std::iter_rvalue_reference_t<I>>, T>) && std::is_rvalue_reference_v<std::iter_rvalue_reference_t<I>>, "what moving gives");
    REQUIRE(std::is_nothrow_copy_constructible_v<I> && std::is_nothrow_default_constructible_v<I> && std::is_nothrow_move_assignable_v<I> && std::is_trivially_copyable_v<I>, "iterators are cheap");
    mc::evaluated_once();
}
template<typename A, typename T, int strength, bool sized>
static void container(const char* name) {
    is<A, T>(name, {true, sized, false, false, strength});
    is<A&, T>(name, {true, sized, true, false, strength});
    is<const A, T>(name, {false, sized, false, false, strength});
    is<const A&, T>(name, {false, sized, true, false, strength});
    using I = typename A::iterator;
    using C = typename A::const_iterator;
    REQUIRE((std::is_same_v<I, std::ranges::iterator_t<A>>) && (std::is_same_v<C, std::ranges::iterator_t<const A>>), "iterator types");
    REQUIRE((std::is_convertible_v<I, C>) && !(std::is_convertible_v<C, I>) && !(std::is_constructible_v<I, C>), "conversion of iterators");
    REQUIRE((std::is_same_v<typename A::value_type, T>) && (std::is_same_v<typename A::reference, T&>) && (std::is_same_v<typename A::const_reference, const T&>), "member types");
    if constexpr (sized)
        REQUIRE((std::is_same_v<typename A::size_type, std::size_t>) && (std::is_same_v<typename A::difference_type, std::ptrdiff_t>), "member types");
    REQUIRE(std::movable<A> && std::swappable<A> && std::default_initializable<A> && (!std::copyable<T> || std::copyable<A>), "it cannot be moved, swapped or copied as others can");
    REQUIRE((std::ranges::viewable_range<A> && std::ranges::viewable_range<A&> && std::ranges::viewable_range<const A&>), "adaptors take it");
    REQUIRE((std::is_same_v<std::common_type_t<I, C>, C>) && (std::sentinel_for<C, I>) && (std::sentinel_for<I, C>) == (std::sentinel_for<I, C>), "iterators of either constness");
}
template<typename V, typename T, bool writes>
static void view(const char* name) {
    using U = std::remove_const_t<T>;
    is<V, U>(name, {writes, true, true, true, RandomAccess});
    is<V&, U>(name, {writes, true, true, false, RandomAccess});
    is<const V&, U>(name, {false, true, true, false, RandomAccess});
    REQUIRE(std::ranges::contiguous_range<V> && std::ranges::contiguous_range<const V&>, "%s is not contiguous", name);
    REQUIRE(std::is_trivially_copyable_v<V> && std::is_nothrow_copy_constructible_v<V>, "%s is not cheap to copy", name);
}
template<typename T>
static void types() {
    container<xme::Array<T>, T, RandomAccess, true>("Array");
    container<xme::LinkedList<T>, T, Forward, false>("LinkedList");
    is<xme::Heap<T>&, T>("Heap", {false, true, true, false, RandomAccess});
    is<const xme::Heap<T>&, T>("const Heap", {false, true, true, false, RandomAccess});
    view<xme::ArrayView<T>, T, true>("ArrayView");
    view<xme::ArrayView<const T>, const T, false>("ArrayView of const");
    view<xme::ArrayView<T, 3>, T, true>("ArrayView of three");
    view<xme::ArrayView<const T, 3>, const T, false>("ArrayView of const three");
    using A = xme::Array<T>;
    using R = Sub<xme::ReverseIterator<typename A::iterator>>;
    using C = Sub<xme::ReverseIterator<typename A::const_iterator>>;
    is<R&, T>("ReverseIterator", {true, true, true, false, RandomAccess});
    is<C&, T>("ReverseIterator of const", {false, true, true, false, RandomAccess});
    is<Sub<xme::ConstIterator<typename A::iterator>>&, T>("ConstIterator", {false, true, true, false, RandomAccess});
    is<Sub<xme::ReverseIterator<typename std::list<T>::iterator>>&, T>("ReverseIterator of a list", {true, false, true, false, Bidirectional});
    is<Sub<xme::ConstIterator<typename std::list<T>::iterator>>&, T>("ConstIterator of a list", {false, false, true, false, Bidirectional});
    mc::sample("the concepts every range models");
}
struct Big {
    long v[9];
    bool operator==(const Big&) const = default;
    auto operator<=>(const Big&) const = default;
};
struct NoCompare {
    std::unique_ptr<int> p;
};
static void setup() {
#if PART == 0
    mc::add("concepts", [] {
        types<int>(), types<Tok>(), types<char>(), types<Big>(), types<int*>(), types<const char*>(), types<std::vector<int>>();
        container<xme::Array<NoCompare>, NoCompare, RandomAccess, true>("Array of what only moves");
        container<xme::LinkedList<NoCompare>, NoCompare, Forward, false>("LinkedList of what only moves");
        view<xme::ArrayView<NoCompare>, NoCompare, true>("ArrayView of what only moves");
    });
    mc::add("two.array-list", [] { two<ConstArrayKind, ConstListKind>(), two<ConstListKind, ConstArrayKind>(); });
    mc::add("two.view-heap", [] { two<ConstViewKind, HeapKind>(), two<HeapKind, ConstViewKind>(); });
    mc::add("two.reversed-array", [] { two<ReverseArrayKind, ConstArrayKind>(), two<ConstIteratorKind, ReverseListKind>(); });
#elif PART == 1
    mc::add("read.array", [] { read_all<Reads, ArrayKind>(); });
    mc::add("read.const-array", [] { read_all<Reads, ConstArrayKind>(); });
    mc::add("read.list", [] { read_all<Reads, ListKind>(); });
    mc::add("read.const-list", [] { read_all<Reads, ConstListKind>(); });
    mc::add("read.heap", [] { read_all<Reads, HeapKind>(); });
#elif PART == 2
    mc::add("read.view", [] { read_all<Reads, ViewKind>(); });
    mc::add("read.const-view", [] { read_all<Reads, ConstViewKind>(); });
    mc::add("read.reversed-array", [] { read_all<Reads, ReverseArrayKind>(); });
    mc::add("read.reversed-list", [] { read_all<Reads, ReverseListKind>(); });
    mc::add("read.const-iterator", [] { read_all<Reads, ConstIteratorKind>(); });
#elif PART == 3
    mc::add("write.array", [] { write_all<ArrayKind>(); });
    mc::add("write.spare-array", [] { write_all<SpareArrayKind>(); });
    mc::add("write.list", [] { write_all<ListKind>(); });
    mc::add("write.view", [] { write_all<ViewKind>(); });
#elif PART == 4
    mc::add("write.reversed-array", [] { write_all<ReverseArrayKind>(); });
    mc::add("write.reversed-list", [] { write_all<ReverseListKind>(); });
#elif PART == 5
    mc::add("adapt.array", [] { read_all<Adapts, ArrayKind>(); });
    mc::add("adapt.const-array", [] { read_all<Adapts, ConstArrayKind>(); });
    mc::add("adapt.list", [] { read_all<Adapts, ListKind>(); });
#elif PART == 6
    mc::add("adapt.const-list", [] { read_all<Adapts, ConstListKind>(); });
    mc::add("adapt.heap", [] { read_all<Adapts, HeapKind>(); });
    mc::add("adapt.view", [] { read_all<Adapts, ViewKind>(); });
    mc::add("adapt.const-view", [] { read_all<Adapts, ConstViewKind>(); });
#endif
}
MC_MAIN(setup)
