// C31: ranges of every kind that derive from IContainer, against the sequence their iterators give.
#include "mc.hpp"
#include <array>
#include <compare>
#include <cstddef>
#include <iterator>
#include <string>
#include <type_traits>
#include <utility>
#include <xme/container/icontainer.hpp>

enum Cat { input, forward, bidi, random_, contiguous };
static const char* cat_name[] = {"input", "forward", "bidirectional", "random access", "contiguous"};
enum Sent { common, sized, unsized };
static const char* sent_name[] = {"an iterator at the end", "a sized sentinel", "a sentinel"};
enum Access { both, shallow, only_mutable, proxy };
static const char* access_name[] = {"const elements when const", "the same elements when const", "no iteration when const", "proxy elements"};

//! a reference to an element that is an object
struct Proxy {
    int* p;
    Proxy& operator=(int v) {
        *p = v;
        return *this;
    }
    const Proxy& operator=(int v) const {
        *p = v;
        return *this;
    }
    operator int() const { return *p; }
    bool operator==(const Proxy&) const = default;
};

static long g_derefs;
static const int *g_low, *g_high;  // the elements
template<Cat C, typename Ref>
struct It {
    static constexpr bool px = std::is_same_v<Ref, Proxy>;
    using value_type         = int;
    using difference_type    = std::ptrdiff_t;
    using reference          = Ref;
    using pointer            = std::conditional_t<px, void, std::remove_reference_t<Ref>*>;
    using iterator_category  = std::conditional_t<C == input, std::input_iterator_tag, std::conditional_t<C == forward, std::forward_iterator_tag,
                               std::conditional_t<C == bidi, std::bidirectional_iterator_tag, std::random_access_iterator_tag>>>;
    using iterator_concept   = std::conditional_t<C == contiguous, ::ranges::contiguous_iterator_tag, iterator_category>;
    using element_type_      = std::conditional_t<px, int, std::remove_reference_t<Ref>>;
    element_type_* p         = nullptr;
    Ref operator*() const {
        REQUIRE(p >= g_low && p < g_high, "an element %td places from the beginning of %td is read", p - g_low, g_high - g_low);
        ++g_derefs;
        if constexpr(px)
            return Proxy{p};
        else
            return *p;
    }
    element_type_* operator->() const
        requires(!px)
    {
        return p;
    }
    void ok() const { REQUIRE(p >= g_low && p <= g_high, "an iterator leaves the range"); }
    It& operator++() {
        ++p;
        ok();
        return *this;
    }
    It operator++(int) {
        It o = *this;
        ++*this;
        return o;
    }
    It& operator--()
        requires(C >= bidi)
    {
        --p;
        ok();
        return *this;
    }
    It operator--(int)
        requires(C >= bidi)
    {
        It o = *this;
        --*this;
        return o;
    }
    bool operator==(const It&) const = default;
    auto operator<=>(const It&) const
        requires(C >= random_)
    = default;
    It& operator+=(std::ptrdiff_t n)
        requires(C >= random_)
    {
        p += n;
        ok();
        return *this;
    }
    It& operator-=(std::ptrdiff_t n)
        requires(C >= random_)
    {
        p -= n;
        ok();
        return *this;
    }
    Ref operator[](std::ptrdiff_t n) const
        requires(C >= random_)
    {
        return *(It{p} += n);
    }
    friend It operator+(It i, std::ptrdiff_t n)
        requires(C >= random_)
    {
        return i += n;
    }
    friend It operator+(std::ptrdiff_t n, It i)
        requires(C >= random_)
    {
        return i += n;
    }
    friend It operator-(It i, std::ptrdiff_t n)
        requires(C >= random_)
    {
        return i -= n;
    }
    friend std::ptrdiff_t operator-(It a, It b)
        requires(C >= random_)
    {
        return a.p - b.p;
    }
};
template<Cat C, typename Ref, bool Sized>
struct End {
    const int* p = nullptr;
    friend bool operator==(const It<C, Ref>& i, const End& e) { return i.p == e.p; }
    friend std::ptrdiff_t operator-(const It<C, Ref>& i, const End& e)
        requires Sized
    {
        return i.p - e.p;
    }
    friend std::ptrdiff_t operator-(const End& e, const It<C, Ref>& i)
        requires Sized
    {
        return e.p - i.p;
    }
};
template<Cat C, Sent S, typename Ref>
auto end_at(std::conditional_t<std::is_same_v<Ref, const int&>, const int, int>* p) {
    if constexpr(S == common)
        return It<C, Ref>{p};
    else
        return End<C, Ref, S == sized>{p};
}
static constexpr std::size_t room = 8;
//! Own: has a size() of its own
template<Cat C, Sent S, Access A, bool Own>
struct R : xme::IContainer<R<C, S, A, Own>> {
    using ref  = std::conditional_t<A == proxy, Proxy, int&>;
    using cref = std::conditional_t<A == both, const int&, ref>;
    mutable int e[room + 2];
    std::size_t n = 0;
    auto begin() { return It<C, ref>{e + 1}; }
    auto end() { return end_at<C, S, ref>(e + 1 + n); }
    auto begin() const
        requires(A != only_mutable)
    {
        return It<C, cref>{e + 1};
    }
    auto end() const
        requires(A != only_mutable)
    {
        return end_at<C, S, cref>(e + 1 + n);
    }
};
template<Cat C, Sent S, Access A>
struct R<C, S, A, true> : xme::IContainer<R<C, S, A, true>> {
    using ref  = std::conditional_t<A == proxy, Proxy, int&>;
    using cref = std::conditional_t<A == both, const int&, ref>;
    mutable int e[room + 2];
    std::size_t n = 0;
    auto begin() { return It<C, ref>{e + 1}; }
    auto end() { return end_at<C, S, ref>(e + 1 + n); }
    auto begin() const
        requires(A != only_mutable)
    {
        return It<C, cref>{e + 1};
    }
    auto end() const
        requires(A != only_mutable)
    {
        return end_at<C, S, cref>(e + 1 + n);
    }
    std::size_t size() const { return n; }
};

template<typename D> concept has_index = requires(D& d) { d[0]; };
template<typename D> concept has_empty = requires(D& d) { d.empty(); };
template<typename D> concept has_data  = requires(D& d) { d.data(); };
template<typename D> concept has_size  = requires(D& d) { d.size(); };
template<typename D> concept has_front = requires(D& d) { d.front(); };
template<typename D> concept has_back  = requires(D& d) { d.back(); };

//! the members of D, const or not, against the elements want[0, n) at at
template<Cat C, Sent S, Access A, bool Own, typename D>
void look(D& d, const int* at, std::size_t n) {
    using ref              = std::conditional_t<std::is_const_v<D>, typename D::cref, typename D::ref>;
    constexpr bool iterate = !(std::is_const_v<D> && A == only_mutable);
    static_assert(has_index<D> == (iterate && C >= random_));
    static_assert(has_empty<D> == (iterate && C >= forward));
    static_assert(has_data<D> == (iterate && C >= contiguous && A != proxy));
    static_assert(has_size<D> == (Own || (iterate && C >= forward && (S == sized || (S == common && C >= random_)))));
    static_assert(has_front<D> == (iterate && C >= forward));
    static_assert(has_back<D> == (iterate && C >= bidi));
    auto same = [&](auto&& r, std::size_t i, const char* what) {
        if constexpr(std::is_same_v<ref, Proxy>)
            REQUIRE(r.p == at + i, "%s of %zu elements is another element", what, n);
        else
            REQUIRE(&r == at + i, "%s of %zu elements is another element", what, n);
    };
    if constexpr(has_empty<D>)
        REQUIRE(d.empty() == (n == 0), "empty() of %zu elements", n);
    if constexpr(has_size<D>) {
        static_assert(std::is_same_v<decltype(d.size()), std::size_t>);
        REQUIRE(d.size() == n, "size() of %zu elements is %zu", n, d.size());
    }
    if constexpr(has_data<D>) {
        static_assert(std::is_same_v<decltype(d.data()), std::remove_reference_t<ref>*>);
        REQUIRE(d.data() == at, "data() of %zu elements is elsewhere", n);
    }
    REQUIRE(g_derefs == 0, "asking for the size or place reads elements");
    if(n > 0) {
        if constexpr(has_front<D>) {
            static_assert(std::is_same_v<decltype(d.front()), ref>);
            same(d.front(), 0, "front()");
        }
        if constexpr(has_back<D>) {
            static_assert(std::is_same_v<decltype(d.back()), ref>);
            same(d.back(), n - 1, "back()");
        }
    }
    if constexpr(has_index<D>)
        for(std::size_t i = 0; i < n; ++i) {
            static_assert(std::is_same_v<decltype(d[i]), ref>);
            same(d[i], i, "an indexed element");
            same(d[(std::ptrdiff_t)i], i, "an indexed element");
        }
    g_derefs = 0;
    mc::evaluated_once(n > 0);
}

template<Cat C, Sent S, Access A, bool Own>
struct Sys {
    R<C, S, A, Own> r;
    int want[room + 2];
    std::size_t n = 0;
    int fresh     = 1;
    Sys() {
        for(std::size_t i = 0; i < room + 2; ++i)
            r.e[i] = want[i] = -1 - (int)i;
        check();
    }
    std::size_t max() const { return mc::thorough ? 6 : 4; }
    std::uint32_t ops() { return max() + 1 + 3 * max() + 2; }
    //! 0..max: that many elements; then writing an element by index (mutable, const), by data, front, back
    bool apply(std::uint32_t op) {
        g_derefs = 0;
        bounds();
        if(op <= max()) {
            if(op == n)
                return false;
            OP("%u elements", op);
            r.n = n = op;
        }
        else {
            op -= max() + 1;
            const std::size_t kind = op / max(), i = op % max();
            const int v = fresh;
            using D     = decltype(r);
            if(kind < 3) {
                if(i >= n)
                    return false;
                OP("element %zu = %d by %s", i, v, kind == 0 ? "index" : kind == 1 ? "data" : "index of the const range");
                if constexpr(has_index<D>) {
                    if(kind == 0)
                        r[i] = v, want[1 + i] = v;
                }
                else if(kind == 0)
                    return false;
                if constexpr(has_data<D>) {
                    if(kind == 1)
                        r.data()[i] = v, want[1 + i] = v;
                }
                else if(kind == 1)
                    return false;
                if constexpr((A == shallow || A == proxy) && has_index<const D>) {
                    if(kind == 2)
                        std::as_const(r)[i] = v, want[1 + i] = v;
                }
                else if(kind == 2)
                    return false;
            }
            else {
                if(n == 0)
                    return false;
                OP(i == 0 ? "front = %d" : "back = %d", v);
                if constexpr(has_front<D>) {
                    if(i == 0)
                        r.front() = v, want[1] = v;
                }
                else if(i == 0)
                    return false;
                if constexpr(has_back<D>) {
                    if(i == 1)
                        r.back() = v, want[n] = v;
                }
                else if(i == 1)
                    return false;
            }
            ++fresh;
        }
        check();
        return true;
    }
    void bounds() { g_low = r.e + 1, g_high = r.e + 1 + r.n; }
    void check() {
        bounds();
        for(std::size_t i = 0; i < room + 2; ++i)
            REQUIRE(r.e[i] == want[i], "element %td is %d, expected %d", (std::ptrdiff_t)i - 1, r.e[i], want[i]);
        g_derefs = 0;
        look<C, S, A, Own>(r, r.e + 1, n);
        look<C, S, A, Own>(std::as_const(r), r.e + 1, n);
    }
    std::string key() {
        std::string k = std::to_string(n);
        for(int v : want)
            k += "," + std::to_string(v);
        return k;
    }
    void finish() {}
};
// more elements than 31 or 32 bits count
struct Count {
    using value_type        = long;
    using difference_type   = std::ptrdiff_t;
    using reference         = long;
    using pointer           = void;
    using iterator_category = std::random_access_iterator_tag;
    long v = 0;
    long operator*() const { return v; }
    long operator[](std::ptrdiff_t n) const { return v + n; }
    Count& operator++() { return ++v, *this; }
    Count operator++(int) { return {v++}; }
    Count& operator--() { return --v, *this; }
    Count operator--(int) { return {v--}; }
    Count& operator+=(std::ptrdiff_t n) { return v += n, *this; }
    Count& operator-=(std::ptrdiff_t n) { return v -= n, *this; }
    friend Count operator+(Count a, std::ptrdiff_t n) { return {a.v + n}; }
    friend Count operator+(std::ptrdiff_t n, Count a) { return {a.v + n}; }
    friend Count operator-(Count a, std::ptrdiff_t n) { return {a.v - n}; }
    friend std::ptrdiff_t operator-(Count a, Count b) { return a.v - b.v; }
    auto operator<=>(const Count&) const = default;
};
struct Upto {
    long v = 0;
    friend bool operator==(Count c, Upto e) { return c.v == e.v; }
    friend std::ptrdiff_t operator-(Count c, Upto e) { return c.v - e.v; }
    friend std::ptrdiff_t operator-(Upto e, Count c) { return e.v - c.v; }
};
template<typename E>
struct Counts : xme::IContainer<Counts<E>> {
    long n = 0;
    Count begin() const { return {1}; }
    E end() const { return {1 + n}; }
};
template<typename R>
void huge_one(R& r) {
    const long n = r.n;
    mc::begin_case();
    OP("%ld elements", n);
    REQUIRE(r.size() == (std::size_t)n && r.empty() == (n == 0), "size() of %ld elements is %zu", n, r.size());
    if(n)
        REQUIRE(r.front() == 1 && r.back() == n, "back() of %ld elements is %ld", n, r.back());
    for(long i = 0; i < n; i = 2 * i + 1)
        REQUIRE(r[i] == i + 1 && r[n - 1 - i] == n - i, "an element of %ld", n);
    ++mc::st.execs, ++mc::st.states, ++mc::st.transitions;
}
template<typename E>
void huge() {
    for(int bit = 0; bit < 62; ++bit)
        for(long d = -2; d <= 2; ++d)
            if((1L << bit) + d >= 0) {
                Counts<E> r;
                r.n = (1L << bit) + d;
                huge_one(r);
                huge_one(std::as_const(r));
            }
}
// the members are usable in constant expressions
struct Fixed : xme::IContainer<Fixed> {
    int a[3] = {4, 5, 6};
    constexpr int* begin() { return a; }
    constexpr int* end() { return a + 3; }
    constexpr const int* begin() const { return a; }
    constexpr const int* end() const { return a + 3; }
};
constexpr int fixed() {
    Fixed f;
    f.back() = 7;
    f[1]     = 8;
    const Fixed c;
    return f.front() * 100 + *(f.data() + 1) * 10 + f[2] + (f.empty() ? 1000 : 0) + f.size() * 10000 + c.size() * 100000
           + (c.front() + c.back() + c[1] + *c.data()) * 1000000 + c.empty();
}
static_assert(fixed() == 19330000 + 487);

template<Cat C, Sent S, Access A, bool Own>
void one() {
    std::string n = std::string(cat_name[C]) + "/" + sent_name[S] + "/" + access_name[A] + (Own ? "/own size" : "");
    for(char& c : n)
        c = c == ' ' ? '_' : c;
    mc::add(n, [] { mc::bfs<Sys<C, S, A, Own>>({mc::thorough ? 5 : 4}); });
}
template<Cat C, Sent S, bool Own>
void accesses() {
    one<C, S, both, Own>(), one<C, S, shallow, Own>(), one<C, S, only_mutable, Own>();
    if constexpr(C != contiguous)
        one<C, S, proxy, Own>();
}
template<Cat C>
void category() {
    accesses<C, common, false>(), accesses<C, sized, false>(), accesses<C, unsized, false>(), accesses<C, unsized, true>(), accesses<C, common, true>();
}
static void setup() {
    if(PART == random_) {
        mc::add("huge.common", [] { huge<Count>(); });
        mc::add("huge.sentinel", [] { huge<Upto>(); });
    }
    category<static_cast<Cat>(PART)>();
}
MC_MAIN(setup)
