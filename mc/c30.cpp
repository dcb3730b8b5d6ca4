// C30: the uninitialized-memory algorithms over raw memory, with every construction possibly throwing.
#include "mc.hpp"
#include <forward_list>
#include <list>
#include <memory>
#include <set>
#include <span>
#include <string>
#include <type_traits>
#include <vector>
#include <xme/ranges/destroy.hpp>
#include <xme/ranges/uninitialized.hpp>

constexpr int CAP = 6;
enum Slot : unsigned char { Raw, Live };
struct Thrown {
    int at;
};
static struct World {
    long constructs, destroys;  // through the allocator
    int throw_at;               // the construct call that throws, or -1
    bool in_alloc;
} w;
static std::set<const void*> alive;
struct Elem {
    int value;
    explicit Elem(int v) : value(v) { born(); }
    Elem(const Elem& o) : value(o.value) {
        REQUIRE(alive.count(&o), "copies something that is no object");
        born();
    }
    Elem(Elem&& o) : value(o.value) {
        REQUIRE(alive.count(&o), "moves something that is no object");
        o.value = -1;
        born();
    }
    ~Elem() { REQUIRE(alive.erase(this), "destroys something that is no object"); }
    void born() { REQUIRE(alive.insert(this).second, "an object is made where one is alive"); }
};
//! an allocator that counts; Own: with construct and destroy of its own, which alone may touch elements
template<typename T, bool Own>
struct Counting {
    using value_type = T;
    int id           = 7;
    T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
    void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
    template<typename U, typename... A>
        requires Own
    void construct(U* p, A&&... a) {
        REQUIRE(id == 7, "another allocator");
        if(w.constructs == w.throw_at)
            throw Thrown{w.throw_at};
        ++w.constructs;
        ::new((void*)p) U(std::forward<A>(a)...);
    }
    template<typename U>
        requires Own
    void destroy(U* p) {
        REQUIRE(id == 7, "another allocator");
        ++w.destroys;
        p->~U();
    }
    Counting()                           = default;
    Counting(const Counting&)            = delete;
    Counting& operator=(const Counting&) = delete;
};
//! memory for CAP elements between guards
template<typename T>
struct Memory {
    alignas(T) unsigned char raw[(CAP + 2) * sizeof(T)];
    Memory() { std::memset(raw, 0xee, sizeof raw); }
    T* at(int i) { return reinterpret_cast<T*>(raw) + 1 + i; }
    bool untouched(int i) {
        const unsigned char* p = raw + (i + 1) * sizeof(T);
        for(std::size_t k = 0; k < sizeof(T); ++k)
            if(p[k] != 0xee)
                return false;
        return true;
    }
};
//! an iterator over raw memory no stronger than forward
template<typename T>
struct Forward {
    using value_type        = std::remove_cv_t<T>;
    using difference_type   = std::ptrdiff_t;
    using reference         = T&;
    using pointer           = T*;
    using iterator_category = std::forward_iterator_tag;
    T* p                    = nullptr;
    T& operator*() const { return *p; }
    Forward& operator++() {
        ++p;
        return *this;
    }
    Forward operator++(int) {
        Forward r = *this;
        ++p;
        return r;
    }
    bool operator==(const Forward&) const = default;
};
template<typename T>
struct End {
    T* p = nullptr;
    friend bool operator==(const Forward<T>& i, const End& e) { return i.p == e.p; }
};
template<typename T> T* raw(T* p) { return p; }
template<typename T> T* raw(const Forward<T>& p) { return p.p; }

struct Expect {
    int lo, n;  // objects [lo, lo+n) are alive
};
template<typename T>
void memory_is(Memory<T>& m, int lo, int n, const char* what) {
    for(int i = -1; i <= CAP; ++i)
        if(i < lo || i >= lo + n)
            REQUIRE(m.untouched(i), "%s: slot %d outside is written", what, i);
}
static const char* const kinds[] = {"pointers", "forward iterators", "ranges"};

//! every number to copy, room, offset and throw point
template<bool Own>
void copies(mc::Choices& choose) {
    using A        = Counting<Elem, Own>;
    const int n    = choose(CAP + 1), room = choose(CAP + 1);
    const int off  = choose(CAP - room + 1);
    const int kind = choose(3);
    const int m    = std::min(n, room);
    const int thr  = Own ? (int)choose(m + 1) : m;  // m: none
    mc::log("uninitialized_copy_a of %d into room for %d at %d, %s, construction %d throws", n, room, off, kinds[kind], thr < m ? thr : -1);
    w = {0, 0, thr < m ? thr : -1};
    std::vector<Elem> src;
    src.reserve(CAP);
    for(int i = 0; i < n; ++i)
        src.emplace_back(10 + i);
    const Elem* s0 = src.data();
    Memory<Elem> mem;
    A a;
    bool threw = false;
    const Elem* in_end = nullptr;
    Elem* out_end      = nullptr;
    Elem *lo = mem.at(off), *hi = mem.at(off + room);
    try {
        if(kind == 0) {
            auto r = xme::ranges::uninitialized_copy_a(s0, s0 + n, lo, hi, a);
            in_end = r.first, out_end = r.second;
        }
        else if(kind == 1) {
            auto r = xme::ranges::uninitialized_copy_a(Forward<const Elem>{s0}, End<const Elem>{s0 + n}, Forward<Elem>{lo}, End<Elem>{hi}, a);
            in_end = r.first.p, out_end = r.second.p;
        }
        else {
            auto r = xme::ranges::uninitialized_copy_a(std::span<const Elem>(s0, n), std::span<Elem>(lo, room), a);
            in_end = std::to_address(r.first), out_end = std::to_address(r.second);
        }
    }
    catch(const Thrown& t) {
        threw = true;
        REQUIRE(t.at == thr, "another exception");
    }
    for(int i = 0; i < n; ++i)
        REQUIRE(alive.count(&src[i]) && src[i].value == 10 + i, "the source is changed");
    if(thr < m) {
        REQUIRE(threw, "the exception is lost");
        REQUIRE(w.constructs == thr && w.destroys == thr, "%ld made and %ld destroyed through the allocator", w.constructs, w.destroys);
        for(int i = 0; i < thr; ++i)
            REQUIRE(!alive.count(lo + i), "the object made at %d is still alive", i);
        memory_is(mem, off, thr, "a copy that throws");
        return;
    }
    REQUIRE(!threw, "an exception from nowhere");
    REQUIRE(in_end == s0 + m && out_end == lo + m, "the ends returned are %td and %td, expected %d", in_end - s0, out_end - lo, m);
    if(Own)
        REQUIRE(w.constructs == m && w.destroys == 0, "%ld made and %ld destroyed through the allocator", w.constructs, w.destroys);
    for(int i = 0; i < m; ++i)
        REQUIRE(alive.count(lo + i) && lo[i].value == 10 + i, "object %d is %d", i, lo[i].value);
    memory_is(mem, off, m, "a copy");
    for(int i = 0; i < m; ++i)
        lo[i].~Elem();
}
template<bool Own>
void fills(mc::Choices& choose) {
    const int n    = choose(CAP + 1);
    const int off  = choose(CAP - n + 1);
    const int kind = choose(2);
    const int thr  = Own ? (int)choose(n + 1) : n;
    mc::log("uninitialized_fill_n_a of %d at %d, %s, construction %d throws", n, off, kinds[kind], thr < n ? thr : -1);
    w = {0, 0, thr < n ? thr : -1};
    const Elem value(42);
    Memory<Elem> mem;
    Counting<Elem, Own> a;
    Elem* lo   = mem.at(off);
    bool threw = false;
    Elem* end  = nullptr;
    try {
        if(kind == 0)
            end = xme::ranges::uninitialized_fill_n_a(lo, n, value, a);
        else
            end = xme::ranges::uninitialized_fill_n_a(Forward<Elem>{lo}, n, value, a).p;
    }
    catch(const Thrown&) {
        threw = true;
    }
    REQUIRE(alive.count(&value) && value.value == 42, "the value is changed");
    if(thr < n) {
        REQUIRE(threw, "the exception is lost");
        REQUIRE(w.constructs == thr && w.destroys == thr, "%ld made and %ld destroyed through the allocator", w.constructs, w.destroys);
        for(int i = 0; i < thr; ++i)
            REQUIRE(!alive.count(lo + i), "the object made at %d is still alive", i);
        memory_is(mem, off, thr, "a fill that throws");
        return;
    }
    REQUIRE(!threw && end == lo + n, "the end returned is %td, expected %d", end - lo, n);
    if(Own)
        REQUIRE(w.constructs == n && w.destroys == 0, "%ld made and %ld destroyed through the allocator", w.constructs, w.destroys);
    for(int i = 0; i < n; ++i)
        REQUIRE(alive.count(lo + i) && lo[i].value == 42, "object %d is %d", i, lo[i].value);
    memory_is(mem, off, n, "a fill");
    for(int i = 0; i < n; ++i)
        lo[i].~Elem();
}
//! destroys exactly [lo, lo+n) of CAP objects
template<bool Own>
void destroys(mc::Choices& choose) {
    const int n    = choose(CAP + 1);
    const int off  = choose(CAP - n + 1);
    const int kind = choose(6);
    static const char* const names[] = {"destroy_a of pointers", "destroy_a of forward iterators", "destroy_a of a range", "destroy_n_a of a pointer", "destroy_n_a of a forward iterator", "destroy_at_a of each"};
    mc::log("%s: %d at %d", names[kind], n, off);
    w = {0, 0, -1};
    Memory<Elem> mem;
    Counting<Elem, Own> a;
    for(int i = 0; i < CAP; ++i)
        new(mem.at(i)) Elem(i);
    Elem* lo = mem.at(off);
    switch(kind) {
    case 0: xme::ranges::destroy_a(lo, lo + n, a); break;
    case 1: xme::ranges::destroy_a(Forward<Elem>{lo}, End<Elem>{lo + n}, a); break;
    case 2: xme::ranges::destroy_a(std::span<Elem>(lo, n), a); break;
    case 3: xme::ranges::destroy_n_a(lo, n, a); break;
    case 4: xme::ranges::destroy_n_a(Forward<Elem>{lo}, n, a); break;
    case 5:
        for(int i = 0; i < n; ++i)
            xme::ranges::destroy_at_a(lo + i, a);
        break;
    }
    if(Own)
        REQUIRE(w.destroys == n && w.constructs == 0, "%ld destroyed and %ld made through the allocator", w.destroys, w.constructs);
    for(int i = 0; i < CAP; ++i) {
        const bool gone = i >= off && i < off + n;
        REQUIRE(!alive.count(mem.at(i)) == gone && (gone || mem.at(i)->value == i), "object %d is %s", i, gone ? "still alive" : "destroyed");
        if(!gone)
            mem.at(i)->~Elem();
    }
    REQUIRE(mem.untouched(-1) && mem.untouched(CAP), "memory outside is written");
}
//! arrays are destroyed element by element, also inside arrays
template<bool Own>
void arrays() {
    mc::begin_case(), mc::log("destroy_at_a and destroy_n_a of arrays");
    auto run = [](auto* tag, int n, int per) {
        using Arr = std::remove_pointer_t<decltype(tag)>;
        for(int k = 0; k <= n; ++k) {
            w = {0, 0, -1};
            Counting<Elem, Own> a;
            std::vector<unsigned char> buf(sizeof(Elem) * per * n + 64, 0xee);
            Elem* e = reinterpret_cast<Elem*>(buf.data());
            for(int i = 0; i < per * n; ++i)
                new(e + i) Elem(i);
            if(k == n && n > 0) {
                for(int i = 0; i < n; ++i)
                    xme::ranges::destroy_at_a(reinterpret_cast<Arr*>(e) + i, a);
            }
            else
                xme::ranges::destroy_n_a(reinterpret_cast<Arr*>(e), k, a);
            if(Own)
                REQUIRE(w.destroys == k * per, "%ld elements of %d are destroyed through the allocator", w.destroys, k * per);
            for(int i = 0; i < per * n; ++i) {
                REQUIRE(!alive.count(e + i) == (i < k * per), "element %d of %d arrays of %d: %s", i, k, per, alive.count(e + i) ? "alive" : "destroyed");
                if(alive.count(e + i))
                    e[i].~Elem();
            }
            ++mc::st.execs, ++mc::st.states;
        }
    };
    for(int n = 0; n < 4; ++n)
        run((Elem(*)[1]) nullptr, n, 1), run((Elem(*)[3]) nullptr, n, 3);
    mc::sample(mc::g_trail->log);
}
//! other kinds of ranges and element types
static void others() {
    mc::begin_case(), mc::log("copying between other ranges and types");
    std::allocator<std::string> sa;
    for(int n = 0; n <= 8; ++n)
        for(int room = 0; room <= 8; ++room) {
            std::list<const char*> src;
            for(int i = 0; i < n; ++i)
                src.push_back(i % 2 ? "short" : "a string too long to be stored inside the object");
            std::string* out = sa.allocate(8);
            auto r           = xme::ranges::uninitialized_copy_a(src, std::span<std::string>(out, room), sa);
            const int m      = std::min(n, room);
            REQUIRE(std::distance(src.begin(), r.first) == m && std::to_address(r.second) == out + m, "the ends returned are wrong");
            auto it = src.begin();
            for(int i = 0; i < m; ++i, ++it)
                REQUIRE(out[i] == *it, "string %d is '%s'", i, out[i].c_str());
            xme::ranges::destroy_n_a(out, m, sa);
            auto e = xme::ranges::uninitialized_fill_n_a(out, room, std::string(n * 9, 'x'), sa);
            REQUIRE(e == out + room, "the end returned is wrong");
            for(int i = 0; i < room; ++i)
                REQUIRE(out[i] == std::string(n * 9, 'x'), "string %d is '%s'", i, out[i].c_str());
            xme::ranges::destroy_a(std::span<std::string>(out, room), sa);
            sa.deallocate(out, 8);
            ++mc::st.execs, ++mc::st.states;
        }
    mc::sample(mc::g_trail->log);
}
template<bool Own>
void with(const char* tag) {
    std::string t(tag);
    mc::add("copy" + t, [] { mc::dfs(copies<Own>); });
    mc::add("fill" + t, [] { mc::dfs(fills<Own>); });
    mc::add("destroy" + t, [] { mc::dfs(destroys<Own>); });
    mc::add("arrays" + t, [] { arrays<Own>(); });
}
static void setup() {
    with<true>(""), with<false>("-plain");
    mc::add("others", others);
}
MC_MAIN(setup)
