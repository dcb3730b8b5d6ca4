// C08: Heap as a priority queue.
#include "types.hpp"
#include <forward_list>
#include <list>
#include <xme/container/heap.hpp>
// An element's identity v carries its key in the low bits: elements with equal keys are equivalent but distinguishable.
constexpr int kBits = 10;
inline std::uint64_t g_cmps = 0;
template<typename T>
int key_of(const T& t) {
    int v = tk::id(t);
    if(v < 0)
        mc::fail("a moved from element is compared");
    return v & ((1 << kBits) - 1);
}
struct ByKey {
    template<typename T>
    bool operator()(const T& a, const T& b) const {
        ++g_cmps;
        return key_of(a) < key_of(b);
    }
};
struct ByKeyDown {
    template<typename T>
    bool operator()(const T& a, const T& b) const {
        ++g_cmps;
        return key_of(a) > key_of(b);
    }
};
//! an element with its own operators, which compare the key
struct Own : tk::Elem {
    using tk::Elem::Elem;
    friend bool operator<(const Own& a, const Own& b) { return ByKey{}(a, b); }
    friend bool operator>(const Own& a, const Own& b) { return ByKey{}(b, a); }
    friend bool operator==(const Own& a, const Own& b) { return key_of(a) == key_of(b); }
    friend bool operator<=(const Own& a, const Own& b) { return !(b < a); }
    friend bool operator>=(const Own& a, const Own& b) { return !(a < b); }
};
using ty::Once;
template<typename H, bool Max>
struct Model {
    using T = typename H::value_type;
    std::vector<int> ref;  // identities, in no order
    static int key(int v) { return v & ((1 << kBits) - 1); }
    static bool outranks(int a, int b) { return Max ? key(a) > key(b) : key(a) < key(b); }
    static std::string show(std::vector<int> v) {
        std::string s = "{";
        for(std::size_t i = 0; i < v.size() && i < 40; ++i)
            s += (i ? " " : "") + std::to_string(key(v[i])) + "#" + std::to_string(v[i] >> kBits);
        return s + "}";
    }
    void check(H& h, const char* when) {
        const H& k = h;
        std::vector<int> got, want = ref;
        for(auto it = k.begin(); it != k.end(); ++it)
            got.push_back(tk::id(*it));
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        REQUIRE(got == want, "%s: the heap holds %s instead of %s", when, show(got).c_str(), show(want).c_str());
        REQUIRE(h.size() == ref.size() && k.size() == ref.size(), "%s: size() is %zu instead of %zu", when, h.size(), ref.size());
        REQUIRE(h.empty() == ref.empty() && k.empty() == ref.empty(), "%s: empty()", when);
        if(!ref.empty()) {
            int f = tk::id(k.front());
            REQUIRE(tk::id(h.front()) == f, "%s: front() of the const heap differs", when);
            for(int v : ref)
                REQUIRE(!outranks(v, f), "%s: front is %d but %d outranks it", when, key(f), key(v));
        }
    }
    static std::uint64_t bound(std::size_t n) {
        std::uint64_t b = 4;
        for(; n; n >>= 1)
            b += 4;
        return b;
    }
    void pop(H& h) {
        int f = tk::id(h.front());
        auto it = std::find(ref.begin(), ref.end(), f);
        REQUIRE(it != ref.end(), "front refers to an element the heap does not hold");
        ref.erase(it);
        auto c = g_cmps;
        auto n = h.size();
        h.pop();
        REQUIRE(g_cmps - c <= bound(n), "pop from %zu elements took %llu comparisons", n, (unsigned long long)(g_cmps - c));
    }
    void drain(H& h) {
        int last   = 0;
        bool first = true;
        OP("pop until empty");
        while(!ref.empty()) {
            int f = tk::id(h.front());
            if(!first)
                REQUIRE(!outranks(f, last), "popped %d before %d", key(last), key(f));
            first = false;
            last  = f;
            pop(h);
            check(h, "draining");
            ++mc::st.transitions;
        }
        REQUIRE(h.empty(), "the heap holds more than was pushed");
    }
};
//! histories of push, emplace, pop over keys 0..m-1
template<typename H, bool Max>
struct Sys {
    using T = typename H::value_type;
    int keys, max;
    Model<H, Max> m;
    alignas(H) unsigned char mem[sizeof(H)];
    int tag = 1;
    bool done = false;
    H& h() { return *reinterpret_cast<H*>(mem); }
    Sys(int k, int mx) : keys(k), max(mx) {
        tk::reset_registry();
        ::new(mem) H();
    }
    void finish() {
        if(done)
            return;
        done = true;
        if constexpr(std::is_copy_constructible_v<T>) {  // a copy is independent
            auto keep = m.ref;
            {
                H c(h());
                m.check(c, "a copy");
                m.drain(c);
            }
            m.ref = keep;
            m.check(h(), "after draining a copy");
        }
        m.drain(h());
        h().~H();
        tk::expect_clean("after the heap is destroyed");
    }
    std::uint32_t ops() { return 2 * keys + 2; }
    bool apply(std::uint32_t op) {
        if(op < (std::uint32_t)(2 * keys)) {
            if((int)m.ref.size() >= max)
                return false;
            int k = op % keys, v = (tag++ << kBits) | k;
            m.ref.push_back(v);
            auto c = g_cmps;
            auto n = h().size();
            if((int)op < keys) {
                OP("push %d", k);
                h().push(T(v));
            }
            else {
                OP("emplace %d", k);
                h().emplace(v);
            }
            REQUIRE(g_cmps - c <= m.bound(n), "push onto %zu elements took %llu comparisons", n, (unsigned long long)(g_cmps - c));
        }
        else if(op == (std::uint32_t)(2 * keys)) {
            if(m.ref.empty())
                return false;
            OP("pop");
            m.pop(h());
#ifndef NDEBUG
            if(m.ref.empty()) {
                H& e = h();
                REQUIRE(mc::rejects([&] { e.pop(); }), "popping from an empty heap was not rejected");
            }
#endif
        }
        else {
            if constexpr(std::is_copy_constructible_v<T>) {
                if(m.ref.empty() || (int)m.ref.size() >= max)
                    return false;
                OP("push its own front");
                m.ref.push_back(tk::id(std::as_const(h()).front()));
                h().push(std::as_const(h()).front());
            }
            else
                return false;
        }
        m.check(h(), "after the operation");
        return true;
    }
    std::string key() {
        std::string k;
        std::map<int, int> ren;
        for(auto it = h().begin(); it != h().end(); ++it) {
            int v = tk::id(*it);
            k += (char)Model<H, Max>::key(v);
            auto [p, f] = ren.insert({v, (int)ren.size()});
            k += (char)p->second;  // an element may be there twice
        }
        return k;
    }
};
//! every starting range of n keys below m, made into a heap in every way, then drained
template<typename H, bool Max>
static void from_ranges(int n, int m) {
    using T = typename H::value_type;
    mc::dfs([&](mc::Choices& ch) {
        tk::reset_registry();
        {
            int how = ch(5);
            int len = ch(n + 1);
            std::vector<int> src;
            std::string s;
            for(int i = 0; i < len; ++i) {
                int k = ch(m);
                src.push_back(((i + 1) << kBits) | k);
                s += std::to_string(k) + " ";
            }
            OP("Heap from the range %sin way %d", s.c_str(), how);
            Model<H, Max> mo;
            mo.ref = src;
            auto go = [&](H h) {
                mo.check(h, "after construction");
                mo.drain(h);
            };
            Once once{src};
            std::forward_list<int> fl(src.begin(), src.end());
            switch(how) {
            case 0: go(H(src)); break;
            case 1: go(H(fl.begin(), fl.end())); break;
            case 2: go(H(src.data(), src.data() + src.size())); break;
            case 3: go(H(once)); break;
            case 4:
                if constexpr(std::is_copy_constructible_v<T>) {
                    std::list<T> l;
                    for(int v : src)
                        l.emplace_back(v);
                    go(H(l));
                }
                break;
            }
        }
        tk::expect_clean("after everything is destroyed");
    });
    mc::st.states += mc::st.execs;
}
//! larger heaps: every rotation of characteristic orders, with pushes in between the pops
template<typename H, bool Max>
static void larger(int max_n) {
    for(int n : {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129}) {
        if(n > max_n)
            break;
        for(int order = 0; order < 5; ++order)
            for(int rot = 0; rot < n; rot += (n > 40 ? 5 : 1)) {
                mc::begin_case();
                OP("%d elements in order %d rotated by %d", n, order, rot);
                tk::reset_registry();
                {
                    H h;
                    Model<H, Max> m;
                    for(int i = 0; i < n; ++i) {
                        int j = (i + rot) % n, k = 0;
                        switch(order) {
                        case 0: k = j; break;
                        case 1: k = n - j; break;
                        case 2: k = j < n / 2 ? j : n - j; break;
                        case 3: k = (j * 37) % 101; break;
                        case 4: k = j / 4; break;
                        }
                        int v = ((i + 1) << kBits) | k;
                        m.ref.push_back(v);
                        auto c = g_cmps;
                        h.emplace(v);
                        REQUIRE(g_cmps - c <= m.bound(i), "push onto %d elements took %llu comparisons", i, (unsigned long long)(g_cmps - c));
                        ++mc::st.transitions;
                    }
                    m.check(h, "after the pushes");
                    for(int i = 0; i < n / 2; ++i) {
                        m.pop(h);
                        m.pop(h);
                        int v = ((n + i + 1) << kBits) | ((rot + i * 7) % (n + 1));
                        m.ref.push_back(v);
                        h.emplace(v);
                        m.check(h, "after pop, pop, push");
                        mc::st.transitions += 3;
                    }
                    m.drain(h);
                }
                tk::expect_clean("after everything is destroyed");
                ++mc::st.execs;
                ++mc::st.states;
            }
    }
}
template<typename T>
using Arr = xme::Array<T, tk::Alloc<T, false>>;
static void setup() {
    using namespace tk;
    using ty::Str;
    const bool t = mc::thorough;
    using A      = xme::Heap<Elem, Arr<Elem>, ByKey>;
    using B      = xme::Heap<MoveOnly, Arr<MoveOnly>, ByKeyDown>;
    using C      = xme::Heap<Own, Arr<Own>>;
    using D      = xme::Heap<Own, Arr<Own>, std::greater<>>;
    using I      = xme::Heap<int>;                             // whole value is the key
    mc::add("history.elem.by_key", [=] { mc::bfs<Sys<A, true>>({t ? 10 : 9}, 3, 7); });
    mc::add("history.moveonly.reverse_key", [=] { mc::bfs<Sys<B, false>>({t ? 10 : 9}, 3, 7); });
    mc::add("history.own.default", [=] { mc::bfs<Sys<C, true>>({t ? 9 : 7}, 4, 6); });
    mc::add("history.own.greater", [=] { mc::bfs<Sys<D, false>>({t ? 9 : 7}, 4, 6); });
    using V = xme::Heap<Elem, std::vector<Elem>, ByKey>;  // in another container
    using S = xme::Heap<Str, xme::Array<Str>, ByKey>;
    mc::add("history.vector", [=] { mc::bfs<Sys<V, true>>({t ? 9 : 7}, 3, 6); });
    mc::add("history.string", [=] { mc::bfs<Sys<S, true>>({t ? 9 : 7}, 3, 6); });
    mc::add("ranges.vector", [=] { from_ranges<V, true>(t ? 7 : 6, 3); });
    mc::add("ranges.string", [=] { from_ranges<S, true>(t ? 7 : 6, 3); });
    mc::add("larger.string", [=] { larger<S, true>(t ? 129 : 65); });
    mc::add("ranges.elem", [=] { from_ranges<A, true>(t ? 8 : 7, 4); });
    mc::add("ranges.own.default", [=] { from_ranges<C, true>(t ? 8 : 6, 3); });
    mc::add("ranges.own.greater", [=] { from_ranges<D, false>(t ? 8 : 6, 3); });
    mc::add("larger.elem", [=] { larger<A, true>(t ? 129 : 65); });
    mc::add("larger.moveonly", [=] { larger<B, false>(t ? 129 : 65); });
    mc::add("permutations.int", [=] {
        // every permutation, with the default comparator on ints
        for(int n = 0; n <= (t ? 9 : 8); ++n) {
            std::vector<int> p;
            for(int i = 0; i < n; ++i)
                p.push_back(i + 1);
            do {
                mc::begin_case();
                std::string s;
                for(int v : p)
                    s += std::to_string(v) + " ";
                OP("push %sthen pop until empty", s.c_str());
                I h;
                xme::Heap<int, xme::Array<int>, std::greater<>> g(p);
                for(int v : p)
                    h.push(v);
                for(int i = n; i > 0; --i) {
                    REQUIRE(h.front() == i, "front is %d instead of %d", h.front(), i);
                    REQUIRE(g.front() == n - i + 1, "front is %d instead of %d", g.front(), n - i + 1);
                    h.pop();
                    g.pop();
                    ++mc::st.transitions;
                }
                REQUIRE(h.empty() && g.empty(), "not empty after popping everything");
                ++mc::st.execs;
                ++mc::st.states;
            } while(std::next_permutation(p.begin(), p.end()));
        }
    });
}
MC_MAIN(setup)
