// C05: windows of ArrayView.
#include "track.hpp"
#include <string>
#include <string_view>
#include <vector>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
using xme::ArrayView;
using u64 = std::size_t;
#ifdef NDEBUG
constexpr bool asserts = false;
#else
constexpr bool asserts = true;
#endif
struct Big {
    int v;
    char pad[20];
    Big(int x = 0) : v(x) {}
    int id() const { return v; }
};
template<typename T>
int ident(const T& t) {
    if constexpr(requires { t.id(); })
        return t.id();
    else
        return (int)t;
}
constexpr u64 kDyn = (u64)-1;

//! everything the view says agrees with [p, p + n)
template<typename V, typename T>
void agrees(V v, T* p, u64 n) {
    using E        = typename V::value_type;
    const V& k     = v;
    ++mc::st.transitions;
    REQUIRE(v.size() == n && k.size() == n, "size() is %zu instead of %zu", v.size(), n);
    REQUIRE(v.size_bytes() == n * sizeof(T), "size_bytes() is %zu instead of %zu", v.size_bytes(), n * sizeof(T));
    REQUIRE(v.empty() == (n == 0) && k.empty() == (n == 0), "empty()");
    REQUIRE(std::to_address(v.begin()) == p && std::to_address(k.begin()) == p && std::to_address(v.end()) == p + n && std::to_address(k.end()) == p + n,
            "the view lies %td elements off", v.begin() - p);
    if(n) {
        REQUIRE(v.data() == p && k.data() == p, "data() is %td elements off", v.data() - p);
        REQUIRE(std::to_address(v.begin()) == p && std::to_address(k.begin()) == p, "begin()");
        REQUIRE(&v.front() == p && &k.front() == p, "front()");
        REQUIRE(&v.back() == p + (n - 1) && &k.back() == p + (n - 1), "back() is %td elements off", &v.back() - (p + (n - 1)));
    }
    REQUIRE(v.end() - v.begin() == (std::ptrdiff_t)n && k.end() - k.begin() == (std::ptrdiff_t)n, "end() - begin() is %td instead of %zu", v.end() - v.begin(), n);
    u64 i = 0;
    for(auto& e : v) {
        REQUIRE(&e == p + i, "iteration: element %zu", i);
        REQUIRE(&v[i] == p + i && &k[i] == p + i, "[%zu]", i);
        ++i;
    }
    REQUIRE(i == n, "iteration gives %zu elements instead of %zu", i, n);
    for(typename V::reverse_iterator it(v.end()), e(v.begin()); it != e; ++it)
        REQUIRE(&*it == p + --i, "reverse iteration at %zu", i);
    for(const auto& e : k) {
        REQUIRE(&e == p + i, "const iteration: element %zu", i);
        ++i;
    }
    if constexpr(!std::is_const_v<E>)
        for(u64 j = 0; j < n; ++j) {
            auto old = p[j];
            v[j]     = E(101 + j);
            REQUIRE(ident(p[j]) == int(101 + j), "a write through the view did not reach element %zu", j);
            p[j] = old;
        }
}
//! byte views
template<typename V, typename T>
void bytes(V v, T* p, u64 n) {
    auto b = xme::as_bytes(v);
    static_assert(std::is_same_v<typename decltype(b)::value_type, const std::byte>);
    REQUIRE(b.size() == n * sizeof(T), "as_bytes has %zu bytes instead of %zu", b.size(), n * sizeof(T));
        REQUIRE((const void*)b.data() == (const void*)p, "as_bytes starts elsewhere");
    if constexpr(!std::is_const_v<typename V::value_type>) {
        auto w = xme::as_writable_bytes(v);
        static_assert(std::is_same_v<typename decltype(w)::value_type, std::byte>);
        REQUIRE(w.size() == n * sizeof(T), "as_writable_bytes has %zu bytes instead of %zu", w.size(), n * sizeof(T));
            REQUIRE((const void*)w.data() == (const void*)p, "as_writable_bytes starts elsewhere");
        for(u64 i = 0; i < n * sizeof(T); ++i) {
            auto* raw      = reinterpret_cast<std::byte*>(p);
            std::byte old  = raw[i];
            w[i]           = std::byte(~std::to_integer<unsigned>(old));
            REQUIRE(raw[i] == std::byte(~std::to_integer<unsigned>(old)), "a byte written through the byte view did not reach byte %zu", i);
            raw[i] = old;
        }
    }
}

//! the request numbers worth asking for in a view of n elements
static std::vector<u64> numbers(u64 n, std::initializer_list<u64> more = {}) {
    std::vector<u64> v;
    for(u64 i = 0; i <= n + 2; ++i)
        v.push_back(i);
    for(u64 b : {(u64)0, (u64)1 << 63, (u64)1 << 62, (u64)1 << 32, (u64)1 << 31})
        for(u64 d = 0; d <= n + 2; ++d) {
            v.push_back(b - d - 1);
            v.push_back(b + d);
        }
    for(u64 m : more)
        for(u64 d = 0; d <= n + 1; ++d) {
            v.push_back(d - m);
            v.push_back(m + d);
        }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
template<typename V, typename T>
void runtime_windows(V v, T* p, u64 n) {
    for(u64 c : numbers(n)) {
        mc::begin_case();
        OP("view of %zu elements, first(%zu) and last(%zu)", n, c, c);
        if(c <= n) {
            agrees(v.first(c), p, c);
            agrees(v.last(c), p + (n - c), c);
        }
        else if(asserts) {
            REQUIRE(mc::rejects([&] { (void)v.first(c); }), "first(%zu) of %zu elements was not rejected", c, n);
            REQUIRE(mc::rejects([&] { (void)v.last(c); }), "last(%zu) of %zu elements was not rejected", c, n);
        }
        ++mc::st.execs;
        for(u64 o : numbers(n, {c})) {
            mc::begin_case();
            OP("view of %zu elements, subview(%zu, %zu)", n, o, c);
            if(o <= n && c <= n - o)
                agrees(v.subview(o, c), p + o, c);
            else if(asserts)
                REQUIRE(mc::rejects([&] { (void)v.subview(o, c); }), "subview(%zu, %zu) of %zu elements was not rejected", o, c, n);
            ++mc::st.transitions;
            ++mc::st.execs;
        }
    }
}
template<u64 C, typename V, typename T>
void static_first_last(V v, T* p, u64 n, bool is_static) {
    mc::begin_case();
    OP("view of %zu elements, first<%zu>() and last<%zu>()", n, C, C);
    if(C <= n) {
        auto f = v.template first<C>();
        auto l = v.template last<C>();
        static_assert(std::is_same_v<decltype(f), ArrayView<typename V::value_type, C>>);
        static_assert(std::is_same_v<decltype(l), ArrayView<typename V::value_type, C>>);
        agrees(f, p, C);
        agrees(l, p + (n - C), C);
    }
    else if(asserts && !is_static) {
        REQUIRE(mc::rejects([&] { (void)v.template first<C>(); }), "first<%zu>() of %zu elements was not rejected", C, n);
        REQUIRE(mc::rejects([&] { (void)v.template last<C>(); }), "last<%zu>() of %zu elements was not rejected", C, n);
    }
    ++mc::st.execs;
}
template<u64 O, u64 C, typename V, typename T>
void static_sub(V v, T* p, u64 n) {
    mc::begin_case();
    OP("view of %zu elements, subview<%zu, %zu>()", n, O, C);
    if(O + C <= n) {
        auto f = v.template subview<O, C>();
        static_assert(std::is_same_v<decltype(f), ArrayView<typename V::value_type, C>>);
        agrees(f, p + O, C);
    }
    else if(asserts)
        REQUIRE(mc::rejects([&] { (void)v.template subview<O, C>(); }), "subview<%zu, %zu>() of %zu elements was not rejected", O, C, n);
    ++mc::st.execs;
}
constexpr u64 kS = 6;
//! static arguments on a view of run-time size
template<typename V, typename T>
void static_windows(V v, T* p, u64 n) {
    [&]<u64... C>(std::index_sequence<C...>) { (static_first_last<C>(v, p, n, false), ...); }(std::make_index_sequence<kS + 3>());
    [&]<u64... I>(std::index_sequence<I...>) { (static_sub<I / (kS + 2), I % (kS + 2)>(v, p, n), ...); }(std::make_index_sequence<(kS + 2) * (kS + 2)>());
}
//! static arguments on a view of static size: what fits
template<u64 N, typename V, typename T>
void static_windows_fit(V v, T* p) {
    [&]<u64... C>(std::index_sequence<C...>) { (static_first_last<C>(v, p, N, true), ...); }(std::make_index_sequence<N + 1>());
    [&]<u64... I>(std::index_sequence<I...>) {
        ([&] {
            constexpr u64 O = I / (N + 1), C = I % (N + 1);
            if constexpr(O + C <= N)
                static_sub<O, C>(v, p, N);
        }(), ...);
    }(std::make_index_sequence<(N + 1) * (N + 1)>());
}
//! windows of windows, compared with the composed window
template<typename T>
void chains(u64 n, int depth) {
    std::vector<T> store;
    for(u64 i = 0; i < n; ++i)
        store.push_back(T(i + 1));
    mc::dfs([&](mc::Choices& ch) {
        ArrayView<T> v(store.data(), n);
        T* p  = store.data();
        u64 m = n;
        for(int d = 0; d < depth; ++d) {
            u64 o = 0, c = 0;
            switch(ch(3)) {
            case 0:
                c = ch(m + 1);
                OP("first(%zu) of %zu", c, m);
                v = v.first(c);
                break;
            case 1:
                c = ch(m + 1);
                o = m - c;
                OP("last(%zu) of %zu", c, m);
                v = v.last(c);
                break;
            default:
                o = ch(m + 1);
                c = ch(m - o + 1);
                OP("subview(%zu, %zu) of %zu", o, c, m);
                v = v.subview(o, c);
            }
            p += o;
            m = c;
            agrees(v, p, m);
        }
        bytes(v, p, m);
    });
}
template<typename T>
void dynamic_all(u64 max) {
    for(u64 n = 0; n <= max; ++n) {
        // the viewed elements in the middle of others
        std::vector<T> store;
        for(u64 i = 0; i < n; ++i)
            store.push_back(T(i + 1));
        store.shrink_to_fit();
        T* p = store.data();
        const T* q = p;
        ++mc::st.states;
        mc::begin_case();
        OP("views of %zu elements", n);
        agrees(ArrayView<T>(p, n), p, n);
        agrees(ArrayView<T>(p, p + n), p, n);
        agrees(ArrayView<T>(store.begin(), n), p, n);
        agrees(ArrayView<T>(store.begin(), store.end()), p, n);
        agrees(ArrayView<const T>(q, n), q, n);
        agrees(ArrayView<const T>(store.begin(), n), q, n);
        agrees(ArrayView(p, n), p, n);
        agrees(ArrayView(q, q + n), q, n);
        static_assert(std::is_same_v<decltype(ArrayView(p, n)), ArrayView<T>>);
        static_assert(std::is_same_v<decltype(ArrayView(q, q + n)), ArrayView<const T>>);
        ArrayView<T> v(p, n), copy(v), other;
        agrees(copy, p, n);
        agrees(other, (T*)nullptr, 0);
        other = v;
        agrees(other, p, n);
        {
            xme::Array<T> arr(std::size_t{n});
            for(u64 i = 0; i < n; ++i)
                arr.emplace_back(T(i + 1));
            T* ap = arr.begin().operator->();
            const auto& karr = arr;
            agrees(ArrayView<T>(arr), ap, n);
            agrees(ArrayView(arr), ap, n);
            agrees(ArrayView<const T>(karr), (const T*)ap, n);
            agrees(ArrayView(karr), (const T*)ap, n);
            agrees(ArrayView<const T>(arr), (const T*)ap, n);
            static_assert(std::is_same_v<decltype(ArrayView(arr)), ArrayView<T>>);
            static_assert(std::is_same_v<decltype(ArrayView(karr)), ArrayView<const T>>);
        }
        agrees(ArrayView<T>(store), p, n);
        agrees(ArrayView<const T>(std::as_const(store)), q, n);
        bytes(v, p, n);
        bytes(ArrayView<const T>(q, n), q, n);
        runtime_windows(v, p, n);
        runtime_windows(ArrayView<const T>(q, n), q, n);
        if(n <= kS + 2) {
            static_windows(v, p, n);
            static_windows(ArrayView<const T>(q, n), q, n);
        }
        ++mc::st.execs;
    }
}
template<typename T, u64 N>
void static_one() {
    mc::begin_case();
    OP("views of static size %zu", N);
    ++mc::st.states;
    if constexpr(N > 0) {
        T c[N];
        for(u64 i = 0; i < N; ++i)
            c[i] = T(i + 1);
        T* p       = c;
        const T* q = c;
        const T(&kc)[N] = c;
        ArrayView v(c);
        static_assert(std::is_same_v<decltype(v), ArrayView<T, N>>);
        agrees(v, p, N);
        agrees(ArrayView<T>(c), p, N);
        agrees(ArrayView<T, N>(c), p, N);
        agrees(ArrayView<T, N>(p, N), p, N);
        agrees(ArrayView<T, N>(p, p + N), p, N);
        agrees(ArrayView<const T, N>(kc), q, N);
        agrees(ArrayView<const T>(kc), q, N);
        agrees(ArrayView(kc), q, N);
        static_assert(std::is_same_v<decltype(ArrayView(kc)), ArrayView<const T, N>>);
        bytes(v, p, N);
        static_assert(std::is_same_v<decltype(xme::as_bytes(v)), ArrayView<const std::byte, N * sizeof(T)>>);
        runtime_windows(v, p, N);
        static_windows_fit<N>(v, p);
        if(asserts)
            for(u64 k : numbers(N))
                if(k != N)
                    REQUIRE(mc::rejects([&] { ArrayView<T, N> w(p, k); }), "a view of static size %zu of %zu elements was not rejected", N, k);
        ArrayView<T> d(v.begin(), v.end());
        agrees(d, p, N);
    }
    std::array<T, N> a;
    for(u64 i = 0; i < N; ++i)
        a[i] = T(i + 1);
    T* p           = a.data();
    const T* q     = p;
    const auto& ka = a;
    ArrayView v(a);
    static_assert(std::is_same_v<decltype(v), ArrayView<T, N>>);
    agrees(v, p, N);
    agrees(ArrayView<T>(a), p, N);
    agrees(ArrayView<T, N>(a), p, N);
    agrees(ArrayView<const T, N>(ka), q, N);
    agrees(ArrayView<const T>(ka), q, N);
    agrees(ArrayView(ka), q, N);
    static_assert(std::is_same_v<decltype(ArrayView(ka)), ArrayView<const T, N>>);
    bytes(v, p, N);
    runtime_windows(v, p, N);
    static_windows_fit<N>(v, p);
    ++mc::st.execs;
}
template<typename T>
void static_all() {
    static_one<T, 0>();
    static_one<T, 1>();
    static_one<T, 2>();
    static_one<T, 3>();
    static_one<T, 5>();
    static_one<T, 6>();
    ArrayView<T, 0> none;
    agrees(none, (T*)nullptr, 0);
}
//! views of more elements or bytes than 16, 31 or 32 bits count: nothing in them is read
template<typename T>
void huge() {
    auto at = [](u64 i) { return reinterpret_cast<T*>(((u64)1 << 40) + i * sizeof(T)); };
    auto is = [&](auto v, u64 o, u64 n) {
        ++mc::st.transitions;
        REQUIRE(v.size() == n && v.size_bytes() == n * sizeof(T) && v.empty() == (n == 0), "size() is %zu, size_bytes() %zu", v.size(), v.size_bytes());
        REQUIRE(v.data() == at(o) && v.begin() == at(o) && v.end() == at(o + n), "the view is elsewhere");
        if(n)
            REQUIRE(&v.front() == at(o) && &v.back() == at(o + n - 1) && &v[n - 1] == at(o + n - 1) && &v[n / 2] == at(o + n / 2), "an element is elsewhere");
        auto b = xme::as_bytes(v);
        auto w = xme::as_writable_bytes(v);
        REQUIRE(b.size() == n * sizeof(T) && b.data() == (const void*)at(o), "as_bytes has %zu bytes", b.size());
        REQUIRE(w.size() == n * sizeof(T) && w.data() == (void*)at(o), "as_writable_bytes has %zu bytes", w.size());
    };
    for(int bit = 7; bit <= (mc::thorough ? 45 : 40); ++bit)
        for(u64 n : {((u64)1 << bit) - 1, (u64)1 << bit, ((u64)1 << bit) + 1}) {
            ArrayView<T> v(at(0), n);
            ++mc::st.states;
            is(v, 0, n);
            is(ArrayView<T>(at(0), at(n)), 0, n);
            for(int cb = 0; cb <= bit; ++cb)
                for(u64 c : {((u64)1 << cb) - 1, (u64)1 << cb, ((u64)1 << cb) + 1, n - ((u64)1 << cb)})
                    if(c <= n) {
                        mc::begin_case();
                        OP("windows of %zu and at %zu of a view of %zu elements", c, c, n);
                        is(v.first(c), 0, c);
                        is(v.last(c), n - c, c);
                        is(v.subview(c, n - c), c, n - c);
                        is(v.subview(n - c, c), n - c, c);
                        is(v.subview(c, 0), c, 0);
                        is(v.subview(c / 2, c - c / 2), c / 2, c - c / 2);
                        is(v.template first<3>(), 0, 3);
                        is(v.template last<3>(), n - 3, 3);
                        ++mc::st.execs;
                    }
                    else if(asserts)
                        REQUIRE(mc::rejects([&] { (void)v.first(c); }) && mc::rejects([&] { (void)v.last(c); }) && mc::rejects([&] { (void)v.subview(c, 0); }),
                                "%zu of %zu elements", c, n);
        }
    constexpr u64 N = ((u64)1 << 33) + 5;
    mc::begin_case();
    OP("a view of static size %zu", N);
    ArrayView<T, N> v(at(0), N);
    is(v, 0, N);
    is(v.template first<N - 1>(), 0, N - 1);
    is(v.template last<N - 1>(), 1, N - 1);
    is(v.template subview<((u64)1 << 32) + 1, (u64)1 << 32>(), ((u64)1 << 32) + 1, (u64)1 << 32);
    is(v.subview(N - 1, 1), N - 1, 1);
}
static void setup() {
    mc::add("huge.char", [] { huge<char>(); });
    mc::add("huge.int", [] { huge<int>(); });
    mc::add("huge.struct", [] { huge<Big>(); });
    const bool t = mc::thorough;
    const u64 m  = t ? 24 : 10;
    mc::add("dynamic.char", [=] { dynamic_all<char>(m); });
    mc::add("dynamic.int", [=] { dynamic_all<int>(m); });
    mc::add("dynamic.struct", [=] { dynamic_all<Big>(m); });
    mc::add("static.int", [=] { static_all<int>(); });
    mc::add("static.struct", [=] { static_all<Big>(); });
    mc::add("chains.int", [=] { chains<int>(t ? 7 : 5, 3); });
    mc::add("chains.struct", [=] { chains<Big>(t ? 6 : 4, 3); });
}
MC_MAIN(setup)
