// C37: exhaustive histories as constexpr functions: the compiler's constant evaluator runs them, and a program runs them again.
#pragma once
#include <array>
#include <cstddef>
#include <iterator>
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>

constexpr void check(bool b, const char* what) {
    if(!b)
        throw what;
}
//! an element that owns memory: the evaluator rejects leaks, double frees and use of what is gone
struct Owner {
    int* p;
    constexpr Owner() : p(new int(0)) {}
    constexpr Owner(int v) : p(new int(v)) {}
    constexpr Owner(const Owner& o) : p(new int(*o.p)) {}
    constexpr Owner(Owner&& o) noexcept : p(o.p) { o.p = nullptr; }
    constexpr Owner& operator=(const Owner& o) {
        if(this != &o) {
            int* q = new int(*o.p);
            delete p;
            p = q;
        }
        return *this;
    }
    constexpr Owner& operator=(Owner&& o) noexcept {
        int* q = o.p;
        o.p    = nullptr;
        delete p;
        p = q;
        return *this;
    }
    constexpr ~Owner() { delete p; }
    constexpr bool operator==(const Owner& o) const { return *p == *o.p; }
    constexpr bool operator<(const Owner& o) const { return *p < *o.p; }
};
struct MoveOnly : Owner {
    constexpr MoveOnly() = default;
    constexpr MoveOnly(int v) : Owner(v) {}
    constexpr MoveOnly(MoveOnly&&) noexcept            = default;
    constexpr MoveOnly& operator=(MoveOnly&&) noexcept = default;
};
//! no default constructor, no assignment from int
struct Pod {
    int v;
    constexpr Pod(int v) : v(v) {}
};
constexpr int val(int v) { return v; }
constexpr int val(const Owner& o) { return *o.p; }
constexpr int val(Pod p) { return p.v; }

//! what a sequence should be
struct Model {
    int v[24]{}, n = 0;
    constexpr void insert(int at, int x) {
        for(int i = n++; i > at; --i)
            v[i] = v[i - 1];
        v[at] = x;
    }
    constexpr void erase(int at) {
        for(--n; at < n; ++at)
            v[at] = v[at + 1];
    }
};
//! reads a few ints, once
struct Once {
    using value_type       = int;
    using difference_type  = std::ptrdiff_t;
    using iterator_concept = std::input_iterator_tag;
    const int* p           = nullptr;
    constexpr int operator*() const { return *p; }
    constexpr Once& operator++() { return ++p, *this; }
    constexpr void operator++(int) { ++p; }
    constexpr bool operator==(const Once&) const = default;
};

#if GROUP == 1
    #include <xme/container/array.hpp>
template<typename A>
constexpr void same(A& a, const Model& m) {
    const A& c = a;
    check(a.size() == std::size_t(m.n) && c.empty() == (m.n == 0) && a.capacity() >= a.size(), "size");
    check(c.end() - c.begin() == m.n && a.end() - a.begin() == m.n, "begin, end");
    int i = 0;
    for(auto& x : c)
        check(val(x) == m.v[i++], "element");
    if(m.n) {
        check(val(a.front()) == m.v[0] && val(c.back()) == m.v[m.n - 1] && val(a[m.n / 2]) == m.v[m.n / 2] && val(c.data()[0]) == m.v[0], "access");
        check(val(*(a.begin() + (m.n - 1))) == m.v[m.n - 1] && val(*(c.end() - 1)) == m.v[m.n - 1], "iterators");
    }
}
constexpr int Ops = 26;
//! applies one operation; false when it does not apply
template<typename T>
constexpr bool step(xme::Array<T>& a, Model& m, int op, int& next) {
    constexpr bool copies = std::is_copy_constructible_v<T>;
    const int n = m.n, mid = n / 2;
    const int two[3]{next + 1, next + 2, next + 3};
    switch(op) {
    case 0: a.push_back(T(++next)), m.insert(n, next); break;
    case 1: check(val(a.emplace_back(++next)) == next, "emplaced"), m.insert(n, next); break;
    case 2: {
        auto i = a.insert(a.begin(), T(++next));
        m.insert(0, next);
        check(i == a.begin(), "inserted at the start");
        break;
    }
    case 3: {
        if(n < 2)
            return false;
        auto i = a.insert(a.begin() + mid, T(++next));
        m.insert(mid, next);
        check(i - a.begin() == mid, "inserted inside");
        break;
    }
    case 4: check(val(*a.insert(a.end(), T(++next))) == next, "inserted at the end"), m.insert(n, next); break;
    case 5: {
        auto i = a.insert(a.begin() + mid, two, two + 2);
        check(i - a.begin() == mid, "range inserted");
        m.insert(mid, ++next), m.insert(mid + 1, ++next);
        break;
    }
    case 6: a.insert(a.end(), two, two + 3), m.insert(n, ++next), m.insert(n + 1, ++next), m.insert(n + 2, ++next); break;
    case 7: {
        auto i = a.insert(a.begin() + mid, two, two);
        check(i - a.begin() == mid, "nothing inserted");
        break;
    }
    case 8: a.push_back(two, two + 2), m.insert(n, ++next), m.insert(n + 1, ++next); break;
    case 9: {
        auto i = a.insert(a.begin() + mid, Once{two}, Once{two + 2});
        check(i - a.begin() == mid, "single pass range inserted");
        m.insert(mid, ++next), m.insert(mid + 1, ++next);
        break;
    }
    case 10: a.push_back(Once{two}, Once{two + 1}), m.insert(n, ++next); break;
    case 11:
        if(!n)
            return false;
        {
            auto i = a.erase(a.begin());
            check(i == a.begin(), "erased the first"), m.erase(0);
        }
        break;
    case 12:
        if(n < 2)
            return false;
        {
            auto i = a.erase(a.begin() + (n - 1));
            check(i == a.end(), "erased the last"), m.erase(n - 1);
        }
        break;
    case 13:
        if(n < 3)
            return false;
        {
            auto i = a.erase(a.begin() + 1);
            check(i - a.begin() == 1, "erased inside"), m.erase(1);
        }
        break;
    case 14:
        if(n < 2)
            return false;
        {
            auto i = a.erase(a.begin(), a.begin() + mid);
            check(i == a.begin(), "erased a prefix");
        }
        for(int i = 0; i < mid; ++i)
            m.erase(0);
        break;
    case 15: {
        auto i = a.erase(a.begin() + mid, a.end());
        check(i == a.end(), "erased a suffix");
        while(m.n > mid)
            m.erase(mid);
        break;
    }
    case 16:
        if(!n)
            return false;
        a.pop_back(), m.erase(n - 1);
        break;
    case 17: a.clear(), m.n = 0; break;
    case 18: a.reserve(a.capacity() + 3); break;
    case 19: a.resize(a.size() + 1); break;
    case 20:
        if(!n)
            return false;
        a.resize(n - 1), m.erase(n - 1);
        break;
    case 21: {
        xme::Array<T> b(std::move(a));
        same(b, m);
        a = std::move(b);
        break;
    }
    case 22: {
        xme::Array<T> b;
        b.push_back(T(++next));
        a.swap(b);
        same(b, m);
        m = Model{};
        m.insert(0, next);
        break;
    }
    case 23:
        if constexpr(copies) {
            xme::Array<T> b(a);
            a.clear();
            same(b, m);
            a = b;
            same(b, m);
            b = std::as_const(a);
            break;
        }
        return false;
    case 24:
        if constexpr(copies) {
            a = {T(++next), T(++next)};
            m = Model{};
            m.insert(0, next - 1), m.insert(1, next);
            break;
        }
        return false;
    case 25:
        if constexpr(copies) {
            if(!n)
                return false;
            a.insert(a.begin(), a[n - 1]);
            m.insert(0, m.v[n - 1]);
            a.push_back(a[0]);
            m.insert(n + 1, m.v[0]);
            break;
        }
        return false;
    }
    return true;
}
template<typename T>
constexpr long arrays(int first, int depth) {
    long n = 0;
    int all = 1;
    for(int d = 1; d < depth; ++d)
        all *= Ops;
    for(int start = 0; start < 4; ++start)
        for(int h = 0; h < all; ++h) {
            xme::Array<T> a;
            Model m;
            int next = 0;
            if(start == 3)
                a.reserve(6);
            for(int i = 0; i < start; ++i)
                a.push_back(T(++next)), m.insert(i, next);
            if(start == 2)
                a.resize(2);
            bool real = step(a, m, first, next);
            same(a, m);
            for(int d = 1, k = h; d < depth && real; ++d, k /= Ops) {
                real = step(a, m, k % Ops, next);
                same(a, m);
            }
            n += real;
        }
    return n;
}
//! made in every way, of every size
template<typename T>
constexpr long array_makes() {
    long n = 0;
    for(int k = 0; k < 6; ++k) {
        const int b[6]{1, 2, 3, 4, 5, 6};
        Model m;
        for(int i = 0; i < k; ++i)
            m.insert(i, b[i]);
        xme::Array<T> x(b, b + k), y(Once{b}, Once{b + k});
        same(x, m), same(y, m);
        xme::Array<T> z(std::move(x)), w(std::allocator<T>{});
        same(z, m);
        w = std::move(y);
        same(w, m);
        if constexpr(std::is_copy_constructible_v<T>) {
            xme::Array<T> c(z);
            same(c, m);
            Model f;
            for(int i = 0; i < k; ++i)
                f.insert(i, 7);
            xme::Array<T> d(std::size_t(k), T(7));
            same(d, f);
            xme::Array<T> e{T(1), T(2), T(3)};
            check(e.size() == 3 && val(e[2]) == 3, "made from a list");
            xme::Array<T> g{std::as_const(e)};
            check(g.size() == 3 && val(g[0]) == 1, "made of a copy");
            n += 4;
        }
        if constexpr(std::is_default_constructible_v<T>) {
            xme::Array<T> v(static_cast<std::size_t>(k));
            check(v.size() <= std::size_t(k) && v.capacity() >= std::size_t(k), "made of a size");
            ++n;
        }
        n += 4;
    }
    return n;
}
#endif

#if GROUP == 2
    #include <xme/container/heap.hpp>
template<typename H>
constexpr void heaped(const H& h, const int (&m)[8], int n) {
    check(h.end() - h.begin() == n && h.size() == std::size_t(n) && h.empty() == (n == 0), "size of a heap");
    int sum = 0, want = 0;
    for(auto& x : h)
        sum += 1 << (3 * val(x));
    for(int i = 0; i < n; ++i)
        want += 1 << (3 * m[i]);
    check(sum == want, "elements of a heap");
    for(int i = 1; i < n; ++i)
        check(!(*(h.begin() + (i - 1) / 2) < *(h.begin() + i)), "order of a heap");
    if(n) {
        int top = m[0];
        for(int i = 1; i < n; ++i)
            top = m[i] > top ? m[i] : top;
        check(val(h.front()) == top, "greatest of a heap");
    }
}
//! every history of pushes of 0..2, emplaces and pops
template<typename T>
constexpr long heaps(int depth) {
    long n = 0;
    int all = 1;
    for(int d = 0; d < depth; ++d)
        all *= 5;
    for(int c = 0; c < all; ++c) {
        xme::Heap<T> h;
        int m[8]{}, size = 0, k = c;
        for(int d = 0; d < depth; ++d, k /= 5) {
            const int op = k % 5;
            if(op < 3)
                h.push(T(op)), m[size++] = op;
            else if(op == 3)
                h.emplace(1), m[size++] = 1;
            else if(size) {
                int top = 0;
                for(int i = 1; i < size; ++i)
                    top = m[i] > m[top] ? i : top;
                m[top] = m[--size];
                h.pop();
            }
            heaped(h, m, size);
        }
        ++n;
    }
    return n;
}
//! every contents of up to five, drained
template<typename T>
constexpr long heap_makes() {
    long n = 0;
    for(int len = 0, all = 1; len <= 5; ++len, all *= 3)
        for(int c = 0; c < all; ++c) {
            int m[8]{};
            for(int i = 0, k = c; i < len; ++i, k /= 3)
                m[i] = k % 3;
            xme::Heap<T> h(m, m + len), g(Once{m}, Once{m + len});
            heaped(g, m, len);
            heaped(h, m, len);
            for(int i = len, last = 3; i > 0; --i) {
                check(val(h.front()) <= last, "drained in order");
                last = val(h.front());
                h.pop();
            }
            check(h.empty(), "drained");
            ++n;
        }
    return n;
}
#endif

#if GROUP == 3
    #include <xme/container/array.hpp>
    #include <xme/container/array_view.hpp>
    #include <xme/core/iterators/const_iterator.hpp>
    #include <xme/core/iterators/reverse_iterator.hpp>
template<typename V>
constexpr void sees(const V& v, const int* b, int n) {
    V w(v);
    check(v.size() == std::size_t(n) && v.end() - v.begin() == n && v.empty() == (n == 0) && w.size() == v.size(), "size of a view");
    check(v.size_bytes() == n * sizeof(int) && v.data() == b, "bytes of a view");
    for(int i = 0; i < n; ++i)
        check(v[i] == b[i] && &*(w.begin() + i) == b + i, "element of a view");
    if(n)
        check(&v.front() == b && &w.back() == b + n - 1, "ends of a view");
}
template<std::size_t N>
constexpr long fixed_views() {
    int b[N + 1]{};
    for(std::size_t i = 0; i <= N; ++i)
        b[i] = int(i) * 3;
    long n = 0;
    xme::ArrayView<int, N> f(b, N);
    sees(f, b, N);
    [&]<std::size_t... O>(std::index_sequence<O...>) {
        auto one = [&]<std::size_t At, std::size_t C>() {
            if constexpr(At + C <= N)
                sees(f.template subview<At, C>(), b + At, C), ++n;
        };
        auto row = [&]<std::size_t At>() { (one.template operator()<At, O>(), ...); };
        (row.template operator()<O>(), ...);
        (sees(f.template first<O>(), b, O), ...);
        (sees(f.template last<O>(), b + (N - O), O), ...);
        (sees(f.first(O), b, O), ...);
        (sees(f.last(O), b + (N - O), O), ...);
    }(std::make_index_sequence<N + 1>{});
    return n;
}
constexpr long views() {
    long n = 0;
    int b[6]{4, 5, 6, 7, 8, 9};
    for(int len = 0; len <= 6; ++len) {
        xme::ArrayView<int> v(b, std::size_t(len)), w(b, b + len), u(w);
        sees(v, b, len), sees(w, b, len), sees(u, b, len);
        xme::ArrayView<const int> c(b, std::size_t(len));
        sees(c, b, len);
        for(int at = 0; at <= len; ++at)
            for(int k = 0; at + k <= len; ++k)
                sees(v.subview(std::size_t(at), std::size_t(k)), b + at, k), ++n;
        for(int k = 0; k <= len; ++k)
            sees(v.first(std::size_t(k)), b, k), sees(v.last(std::size_t(k)), b + len - k, k), n += 2;
        if(len) {
            v[0] = 40;
            check(b[0] == 40, "writes through a view");
        }
    }
    xme::ArrayView<int> whole(b);
    sees(whole, b, 6);
    std::array<int, 3> s{1, 2, 3};
    const std::array<int, 3> cs{1, 2, 3};
    sees(xme::ArrayView<int, 3>(s), s.data(), 3);
    sees(xme::ArrayView<const int>(cs), cs.data(), 3);
    xme::ArrayView<int> none;
    check(none.size() == 0 && none.begin() == none.end() && none.empty(), "empty view");
    xme::Array<int> a{1, 2, 3};
    sees(xme::ArrayView<int>(a), a.data(), 3);
    return n + fixed_views<0>() + fixed_views<1>() + fixed_views<4>();
}
//! every pair of positions, every step
template<typename I>
constexpr long positions(I first, int n, const int* expect) {
    long k = 0;
    for(int p = 0; p <= n; ++p)
        for(int q = 0; q <= n; ++q) {
            I i = first + p, j = i;
            check(j + (q - p) == first + q && i - (p - q) == first + q, "moved");
            j += q - p;
            check(j == first + q && j - i == q - p && i - j == p - q, "distance");
            j -= q - p;
            check(j == i, "there and back");
            j = first + q;
            check((i == j) == (p == q) && (i != j) == (p != q) && (i < j) == (p < q) && (i > j) == (p > q) && (i <= j) == (p <= q) && (i >= j) == (p >= q), "order");
            check((i <=> j) == (p <=> q), "three way order");
            if(q < n) {
                check(i[q - p] == expect[q] && *j == expect[q] && *j.operator->() == expect[q], "element");
                I r = j;
                check(r++ == j, "steps");
                check(r == first + (q + 1) && r[-1] == expect[q], "steps");
                check(--r == j, "steps");
                check(++r == first + (q + 1), "steps");
                check(r-- == first + (q + 1), "steps");
                check(r == j, "steps");
            }
            ++k;
        }
    return k;
}
constexpr long iterators() {
    long n = 0;
    for(int len = 0; len <= 5; ++len) {
        int b[5]{1, 2, 3, 4, 5}, r[5]{};
        for(int i = 0; i < len; ++i)
            r[i] = b[len - 1 - i];
        n += positions(xme::ReverseIterator<int*>(b + len), len, r);
        n += positions(xme::ReverseIterator<const int*>(b + len), len, r);
        n += positions(xme::ReverseIterator<xme::ReverseIterator<int*>>(xme::ReverseIterator<int*>(b)), len, b);
        xme::Array<int> a(b, b + len);
        n += positions(xme::ReverseIterator<typename xme::Array<int>::const_iterator>(a.end()), len, r);
        xme::ReverseIterator<int*> x(b + len);
        xme::ReverseIterator<const int*> y(x);
        check(x == y && !(x < y) && x <= y, "of either constness");
    }
    return n;
}
#endif

#if GROUP == 4
    #include <xme/container/pair.hpp>
    #include <xme/container/tuple.hpp>
    #include <xme/core/functional/bind.hpp>
    #include <xme/core/functional/scoped_delegate.hpp>
constexpr bool agree(std::strong_ordering o, int a, int b) { return (o < 0) == (a < b) && (o > 0) == (a > b); }
//! every pair and triple of small values against every other
constexpr long products() {
    long n = 0;
    for(int x = 0; x < 9; ++x)
        for(int y = 0; y < 9; ++y) {
            xme::Pair<int, long> p{x / 3, x % 3}, q(y / 3, y % 3);
            check((p == q) == (x == y) && agree(p <=> q, x, y) && (p < q) == (x < y) && (p >= q) == (x >= y), "order of pairs");
            xme::Pair<int, long> r(p);
            r.swap(q);
            check(q == p && r.first == y / 3 && r.second == y % 3, "swap of pairs");
            swap(q, r);
            q = r = p;
            check(q == r && q.first == x / 3, "assignment of pairs");
            q = xme::Pair<short, int>(short(y / 3), y % 3);
            check(q.first == y / 3 && xme::get<1>(q) == y % 3, "assignment of another pair");
            ++n;
        }
    for(int x = 0; x < 27; ++x)
        for(int y = 0; y < 27; ++y) {
            xme::Tuple<int, long, short> p{x / 9, long(x / 3 % 3), short(x % 3)}, q{y / 9, long(y / 3 % 3), short(y % 3)}, r(p);
            check((p == q) == (x == y) && agree(p <=> q, x, y) && (p < q) == (x < y) && (p != q) == (x != y), "order of tuples");
            r.swap(q);
            check(q == p && xme::get<0>(r) == y / 9 && xme::get<2>(r) == y % 3, "swap of tuples");
            q = r = p;
            check(q == r && xme::get<1>(q) == x / 3 % 3, "assignment of tuples");
            ++n;
        }
    return n;
}
constexpr long owners() {
    xme::Tuple<Owner, int, Owner> t{Owner(1), 2, Owner(3)}, u(t), v(std::move(t));
    check(u == v && val(xme::get<0>(v)) == 1 && val(xme::get<2>(u)) == 3, "copies and moves");
    auto c = xme::tuple_cat(u, xme::make_tuple(Owner(4)), xme::Pair<int, Owner>(5, Owner(6)));
    check(val(xme::get<3>(c)) == 4 && xme::get<4>(c) == 5 && val(xme::get<5>(c)) == 6, "joined");
    auto d = xme::tuple_cat(std::move(c));
    check(val(xme::get<0>(d)) == 1, "joined from an rvalue");
    check(xme::apply([](const Owner& a, int b, const Owner& e) { return val(a) * 100 + b * 10 + val(e); }, v) == 123, "applied");
    auto [a, b, e] = v;
    check(val(a) == 1 && b == 2 && val(e) == 3, "taken apart");
    int i = 0;
    Owner o;
    xme::tie(o, i, std::ignore) = v;
    check(val(o) == 1 && i == 2, "tied");
    auto f = xme::forward_as_tuple(i, std::move(o));
    check(&xme::get<0>(f) == &i && val(Owner(xme::get<1>(std::move(f)))) == 1, "forwarded");
    xme::Pair<Owner, Owner> p(Owner(1), Owner(2)), q(std::move(p));
    check(val(q.first) == 1 && val(xme::get<1>(q)) == 2, "moved pair");
    p = q;
    check(p == q, "assigned pair");
    auto [m, w] = xme::make_pair(1, Owner(5));
    check(m == 1 && val(w) == 5, "made pair");
    xme::Tuple<> none, nil;
    check(none == nil, "empty tuples");
    return 12;
}
constexpr long binders() {
    long n = 0;
    auto f = [](int a, int b, int c) { return a * 100 + b * 10 + c; };
    for(int a = 0; a < 3; ++a)
        for(int b = 0; b < 3; ++b)
            for(int c = 0; c < 3; ++c) {
                const int want = a * 100 + b * 10 + c;
                const auto front = xme::bind_front(f, a, b);
                auto back        = xme::bind_back(f, b, c);
                auto copy(back);
                check(front(c) == want && back(a) == want && std::move(copy)(a) == want, "bound");
                check(xme::bind_front(f, a)(b, c) == want && xme::bind_back(f, c)(a, b) == want, "bound one");
                check(xme::bind_front(f, a, b, c)() == want && xme::bind_back(f, a, b, c)() == want, "bound all");
                check(xme::bind_front(xme::bind_back(f, c), a)(b) == want, "bound twice");
                n += 8;
            }
    Owner o(4);
    auto g = xme::bind_front([](const Owner& x, const Owner& y) { return val(x) - val(y); }, o);
    auto h(std::move(g));
    check(h(Owner(1)) == 3 && std::move(h)(Owner(2)) == 2, "bound an owner");
    int at = 0, order = 0;
    {
        auto leave = [&] { order = order * 10 + ++at; };
        xme::ScopedDelegate s(leave);
        {
            xme::ScopedDelegate t([&] { order = order * 10 + 7; });
            check(order == 0, "too early");
        }
        check(order == 7, "too late");
    }
    check(order == 71, "at the end of the scope");
    return n + 3;
}
#endif

#if GROUP == 5
    #include <xme/core/algorithm/find.hpp>
    #include <xme/core/algorithm/reverse.hpp>
//! every length, every position of the value, and none
template<typename T>
constexpr long finds(int most) {
    long n = 0;
    T b[80]{};
    for(int len = 0; len <= most; ++len)
        for(int at = 0; at <= len; ++at) {
            for(int i = 0; i < len; ++i)
                b[i] = T(i < at ? 1 : i == at ? 2 : 3 - (i + at) % 2);
            const T* const c = b;
            check(xme::find(b, b + len, T(2)) == b + at && xme::find(c, c + len, T(2)) == c + at, "found elsewhere");
            n += 2;
        }
    std::array<T, 5> r{T(5), T(4), T(3), T(2), T(1)};
    for(int v = 0; v <= 6; ++v) {
        check(xme::find(r, T(v)) - r.begin() == (v == 0 || v == 6 ? 5 : 5 - v), "found elsewhere in a range");
        ++n;
    }
    return n;
}
template<typename T>
constexpr long reverses(int most) {
    long n = 0;
    for(int len = 0; len <= most; ++len) {
        T b[80]{};
        for(int i = 0; i < 80; ++i)
            b[i] = T(i + 1);
        xme::reverse(b, b + len);
        for(int i = 0; i < 80; ++i)
            check(b[i] == T(i < len ? len - i : i + 1), "reversed wrongly");
        ++n;
    }
    std::array<T, 5> r{T(5), T(4), T(3), T(2), T(1)};
    xme::reverse(r);
    check(r[0] == T(1) && r[1] == T(2) && r[2] == T(3) && r[4] == T(5), "range reversed wrongly");
    return n;
}
constexpr long owners() {
    long n = 0;
    for(int len = 0; len <= 9; ++len) {
        Owner b[9]{1, 2, 3, 4, 5, 6, 7, 8, 9};
        for(int v = 1; v <= 9; ++v)
            check(xme::find(b, b + len, Owner(v)) == b + (v <= len ? v - 1 : len), "owner found elsewhere"), ++n;
        xme::reverse(b, b + len);
        for(int i = 0; i < 9; ++i)
            check(val(b[i]) == (i < len ? len - i : i + 1), "owners reversed wrongly");
        ++n;
    }
    return n;
}
#endif

#if GROUP == 6
    #include <limits>
    #include <xme/container/icontainer.hpp>
    #include <xme/core/bit/has_single_bit.hpp>
    #include <xme/core/type_traits/is_initializer_list.hpp>
    #include <xme/core/type_traits/is_scoped_enum.hpp>
    #include <xme/core/utility/forward_like.hpp>
    #include <xme/core/utility/to_unsigned.hpp>
    #include <xme/math/constants.hpp>
    #include <xme/math/scalars/functions.hpp>
    #include <xme/hal/simd_detection.hpp>
template<typename T>
constexpr long bits() {
    long n = 0;
    using U = std::make_unsigned_t<T>;
    for(int i = 0; i < std::numeric_limits<U>::digits; ++i)
        for(int j = 0; j < std::numeric_limits<U>::digits; ++j) {
            const U u = U(U(1) << i | U(1) << j);
            check(xme::has_single_bit(u) == (i == j), "single bit");
            check(xme::to_unsigned(T(u)) == u && std::is_same_v<decltype(xme::to_unsigned(T(u))), U>, "unsigned");
            n += 2;
        }
    check(!xme::has_single_bit(U(0)) && xme::to_unsigned(T(-1)) == U(-1), "none and all");
    return n + 2;
}
struct Six : xme::IContainer<Six> {
    int b[6]{1, 2, 3, 4, 5, 6};
    int n = 6;
    constexpr int* begin() { return b; }
    constexpr const int* begin() const { return b; }
    constexpr int* end() { return b + n; }
    constexpr const int* end() const { return b + n; }
};
constexpr long access() {
    long n = 0;
    for(int len = 0; len <= 6; ++len) {
        Six s;
        s.n          = len;
        const Six& c = s;
        check(s.size() == std::size_t(len) && c.size() == s.size() && c.empty() == (len == 0) && s.empty() == c.empty() && s.data() == s.b && c.data() == s.b, "size");
        for(int i = 0; i < len; ++i)
            check(&s[i] == s.b + i && &c[i] == s.b + i, "element"), ++n;
        if(len)
            check(&s.front() == s.b && &c.back() == s.b + len - 1 && &s.back() == &c.back() && &c.front() == s.b, "ends");
    }
    return n;
}
constexpr long scalars() {
    long n = 0;
    for(int i = -300; i <= 300; ++i) {
        const int s = (i > 0) - (i < 0);
        check(xme::math::sign(i) == s && xme::math::sign(long(i)) == s && xme::math::sign(double(i)) == s && xme::math::sign(float(i)) == float(s), "sign");
        n += 4;
    }
    int i = 1;
    const int c = 2;
    check(&xme::forward_like<int&>(i) == &i && std::is_same_v<decltype(xme::forward_like<const int>(i)), const int&&> && xme::forward_like<int&>(c) == 2, "forwarded");
    check(xme::is_initializer_list<std::initializer_list<int>> && !xme::is_initializer_list<int>, "lists");
    check(xme::math::pi > 3.14159 && xme::math::pi < 3.1416 && xme::math::e_v<float> > 2.718f && xme::math::tau == xme::math::two_pi && xme::math::sqrt_two_v<long double> > 1.41421L, "constants");
    return n + 3;
}
#endif

#if GROUP == 7
    #include <xme/math/math.hpp>
    #include <xme/math/quaternion.hpp>
using namespace xme::math;
template<typename T, std::size_t N>
constexpr Vector<T, N> vec(int seed) {
    Vector<T, N> v(T(0));
    for(std::size_t i = 0; i < N; ++i)
        v[i] = T(1 + (seed + int(i) * 2) % 4);
    return v;
}
//! every operator on every pair of small vectors
template<typename T, std::size_t N>
constexpr long vectors() {
    long n = 0;
    for(int x = 0; x < 4; ++x)
        for(int y = 0; y < 4; ++y) {
            const Vector<T, N> a = vec<T, N>(x), b = vec<T, N>(y);
            const T s = T(y + 1);
            const Vector<T, N> sum = a + b, dif = a - b, pro = a * b, quo = a / b, sb = a * s, qb = a / s, neg = -a;
            Vector<T, N> u(a), w = vec<T, N>(0);
            u += b, u -= a, u *= a, u /= b, u *= s, u /= s;
            w = a;
            T d = 0;
            for(std::size_t i = 0; i < N; ++i) {
                check(sum[i] == T(a[i] + b[i]) && dif[i] == T(a[i] - b[i]) && pro[i] == T(a[i] * b[i]) && quo[i] == T(a[i] / b[i]), "vector by vector");
                check(sb[i] == T(a[i] * s) && qb[i] == T(a[i] / s) && neg[i] == T(-a[i]) && w[i] == a[i], "vector by scalar");
                check(u[i] == T(b[i] * a[i] / b[i] * s / s), "compound");
                d += a[i] * b[i];
            }
            check(dot(a, b) == d && (a == b) == (x == y) && w == a, "dot and equality");
            if constexpr(std::is_floating_point_v<T>)
                check(lerp(a, b, T(0)) == a && lerp(a, b, T(1)) == b, "ends of lerp");
            const Vector<T, N> sg = sign(neg);
            check(sg[N - 1] == T(-1), "signs");
            n += 12;
        }
    return n;
}
template<typename T, std::size_t C, std::size_t R>
constexpr Matrix<T, C, R> mat(int seed) {
    Matrix<T, C, R> m(T(0));
    for(std::size_t i = 0; i < C; ++i)
        for(std::size_t j = 0; j < R; ++j)
            m[i][j] = T(1 + (seed + int(i) * 3 + int(j)) % 4);
    return m;
}
template<typename T, std::size_t C, std::size_t R>
constexpr long matrices() {
    long n = 0;
    for(int x = 0; x < 4; ++x)
        for(int y = 0; y < 4; ++y) {
            const Matrix<T, C, R> a = mat<T, C, R>(x), b = mat<T, C, R>(y);
            const T s = T(y + 1);
            const Matrix<T, C, R> sum = a + b, dif = a - b, sb = a * s, neg = -a;
            const Matrix<T, R, C> t = transpose(a);
            Matrix<T, C, R> u(a);
            u += b, u -= a, u *= s;
            const Vector<T, C> v = vec<T, C>(y);
            const auto mv = a * v;
            for(std::size_t j = 0; j < R; ++j) {
                T want = 0;
                for(std::size_t i = 0; i < C; ++i) {
                    check(sum[i][j] == T(a[i][j] + b[i][j]) && dif[i][j] == T(a[i][j] - b[i][j]) && sb[i][j] == T(a[i][j] * s) && neg[i][j] == T(-a[i][j]), "matrix by matrix");
                    check(u[i][j] == T(b[i][j] * s) && t[j][i] == a[i][j] && a.row(j)[i] == a[i][j] && a.column(i)[j] == a[i][j], "parts");
                    want += a[i][j] * v[i];
                }
                check(mv[j] == want, "matrix by vector");
            }
            const auto p = t * a;
            for(std::size_t i = 0; i < C; ++i)
                for(std::size_t j = 0; j < C; ++j) {
                    T want = 0;
                    for(std::size_t k = 0; k < R; ++k)
                        want += t[k][j] * a[i][k];
                    check(p[i][j] == want, "matrix product");
                }
            check((a == b) == (x == y), "equality");
            n += 10;
        }
    return n;
}
template<typename T>
constexpr long squares() {
    Matrix<T, 2, 2> a(T(3));
    Matrix<T, 3, 3> b(T(2));
    Matrix<T, 4, 4> c(T(2)), id;
    check(determinant(a) == 9 && determinant(b) == 8 && c.determinant() == 16 && determinant(id) == 1, "determinants");
    check(c * id == c && Matrix<T, 4, 4>(b)[2][2] == 2 && Matrix<T, 4, 4>(b)[3][3] == 1 && c.transpose() == c, "identity");
    auto t = scale(translate(id, Vector<T, 3>(1, 2, 3)), Vector<T, 3>(4, 5, 6));
    check(t[3][0] == 1 && t[3][1] == 2 && t[3][2] == 3 && t[0][0] == 4 && t[2][2] == 6, "transformations");
    auto o = ortho_rh(T(-1), T(1), T(-1), T(1), T(1), T(3));
    check(o[0][0] == 1 && o[3][3] == 1, "projection");
    check(cross(Vector<T, 3>(1, 0, 0), Vector<T, 3>(0, 1, 0)) == Vector<T, 3>(0, 0, 1), "cross");
    check(reflect(Vector<T, 2>(1, -1), Vector<T, 2>(0, 1)) == Vector<T, 2>(1, 1), "reflect");
    check(hadamard_product(a, a)[1][1] == 9 && outer_product(Vector<T, 2>(1, 2), Vector<T, 2>(3, 4))[0][1] == 6, "products");
    check(radians(T(180)) > T(3.14159) && degrees(T(1)) > T(57.2957), "angles");
    Vector<T, 4> v(1, 2, 3, 4), w(Vector<T, 2>(1, 2), Vector<T, 2>(3, 4)), x(T(1), Vector<T, 3>(2, 3, 4));
    check(v == w && v == x && v.x == 1 && v.w == 4, "joined vectors");
    return 12;
}
//! the sixteen products of units, and sums
template<typename T>
constexpr long quaternions() {
    const int unit[4][4]{{0, 1, 2, 3}, {1, 0, 3, 2}, {2, 3, 0, 1}, {3, 2, 1, 0}}, sg[4][4]{{1, 1, 1, 1}, {1, -1, 1, -1}, {1, -1, -1, 1}, {1, 1, -1, -1}};
    long n = 0;
    for(int i = 0; i < 4; ++i)
        for(int j = 0; j < 4; ++j) {
            Quaternion<T> p(T(i == 0), T(i == 1), T(i == 2), T(i == 3)), q(T(j == 0), T(j == 1), T(j == 2), T(j == 3)), r(p);
            const auto m = p * q, s = p + q, d = p - q;
            for(int c = 0; c < 4; ++c) {
                auto at = [](const Quaternion<T>& x, int c) { return c == 0 ? x.w : c == 1 ? x.x : c == 2 ? x.y : x.z; };
                check(at(m, c) == (c == unit[i][j] ? T(sg[i][j]) : T(0)), "product of units");
                check(at(s, c) == T((i == c) + (j == c)) && at(d, c) == T((i == c) - (j == c)) && m[c] == at(m, c), "sums");
            }
            r = q;
            check((p == q) == (i == j) && r == q, "equality");
            ++n;
        }
    return n;
}
    #if BUILTINS
constexpr bool near(double a, double b) { return a - b < 1e-6 && b - a < 1e-6; }
//! what goes through the mathematical functions of the library: only where the compiler evaluates those
template<typename T>
constexpr long roots() {
    for(int k = 1; k <= 4; ++k) {
        const T s = T(k);
        check(near(length(Vector<T, 2>(3 * s, 4 * s)), 5. * k) && near(Vector<T, 3>(2 * s, 3 * s, 6 * s).length(), 7. * k) && near(length(Vector<T, 4>(s, s, s, s)), 2. * k) && near(length(Vector<T, 5>(s, s, s, s, 0 * s)), 2. * k), "lengths");
        check(near(normalize(Vector<T, 2>(3 * s, 4 * s)).x, .6) && near(Vector<T, 4>(s, s, s, s).normalize().w, .5) && near(Vector<T, 5>(s, s, s, s, 0 * s).normalize()[3], .5), "unit vectors");
        check(near(distance(Vector<T, 2>(s, s), Vector<T, 2>(4 * s, 5 * s)), 5. * k), "distances");
    }
    const auto r = rotate(Matrix<T, 4, 4>(), T(pi / 2), Vector<T, 3>(0, 0, 1));
    check(near(r[0][0], 0) && near(r[0][1], 1) && near(r[1][0], -1), "rotation");
    const auto p = perspective_rh(T(pi / 2), T(1), T(1), T(3));
    check(near(p[0][0], 1) && near(p[2][3], -1), "perspective");
    check(near(sec(T(0)), 1) && near(csc(T(pi / 2)), 1) && near(cot(T(pi / 4)), 1) && near(arcsin(T(1)), pi / 2) && near(arccos(T(1)), 0) && near(arctan(T(1)), pi / 4), "trigonometry");
    return 15;
}
    #endif
#endif

#if GROUP == 8
    #include <xme/container/array.hpp>
    #include <xme/container/heap.hpp>
    #include <xme/container/pair.hpp>
    #include <xme/container/tuple.hpp>
//! containers of containers
constexpr long nested(int depth) {
    long n = 0;
    int all = 1;
    for(int d = 0; d < depth; ++d)
        all *= 6;
    for(int c = 0; c < all; ++c) {
        xme::Array<xme::Array<Owner>> a;
        int size[16]{}, len = 0, k = c;
        for(int d = 0; d < depth; ++d, k /= 6)
            switch(k % 6) {
            case 0: a.push_back(xme::Array<Owner>{}), size[len++] = 0; break;
            case 1: a.push_back(xme::Array<Owner>{Owner(1), Owner(2)}), size[len++] = 2; break;
            case 2:
                if(len)
                    a[0].push_back(Owner(3)), ++size[0];
                break;
            case 3:
                if(len) {
                    a.erase(a.begin());
                    for(int i = 0; i + 1 < len; ++i)
                        size[i] = size[i + 1];
                    --len;
                }
                break;
            case 4:
                if(len) {
                    a.insert(a.begin(), a.back());
                    for(int i = len++; i > 0; --i)
                        size[i] = size[i - 1];
                    size[0] = size[len - 1];
                }
                break;
            case 5: {
                auto b(a);
                a = std::move(b);
                break;
            }
            }
        check(a.size() == std::size_t(len), "arrays in an array");
        for(int i = 0; i < len; ++i)
            check(a[i].size() == std::size_t(size[i]), "size of an array in an array");
        ++n;
    }
    xme::Array<xme::Pair<int, Owner>> p;
    for(int i = 0; i < 9; ++i)
        p.insert(p.begin(), xme::Pair<int, Owner>(i, Owner(i)));
    check(p.size() == 9 && p[8].first == 0 && val(p[0].second) == 8, "pairs in an array");
    xme::Array<xme::Tuple<Owner, int>> t;
    for(int i = 0; i < 9; ++i)
        t.push_back(xme::Tuple<Owner, int>{Owner(i), i});
    t.erase(t.begin() + 2, t.begin() + 5);
    check(t.size() == 6 && xme::get<1>(t[2]) == 5 && val(xme::get<0>(t[5])) == 8, "tuples in an array");
    return n + 2;
}
#endif
