// C17: every history of three delegates over callables of every storage kind, against a model.
#include "mc.hpp"
#include <array>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <stdexcept>
#include <utility>
#include <xme/core/functional/delegate.hpp>

using xme::Delegate;
using D = Delegate<int(int)>;

// ---- callables ----------------------------------------------------------------------------------
struct World {
    std::set<const void*> alive;
    long copies = 0, moves = 0, made = 0, blocks = 0;
    int fault = 0;  // throw at the fault-th copy or allocation of a callable from now
    bool faulted = false;
    long calls = 0;
    void point() {
        if(fault && --fault == 0) {
            faulted = true;
            throw std::runtime_error("copy");
        }
    }
};
static World w;

static int plain(int x) { return 1000 + x; }
static int plain_other(int x) { return 2000 + x; }
static int plain_noexcept(int x) noexcept { return 3000 + x; }
static const auto stateless = [](int x) { return 4000 + x; };

//! trivially copyable, fits the local storage, counts its own calls
struct Small {
    int id, n = 0;
    int operator()(int x) { return ++w.calls, 5000 + id * 100 + n++ * 10 + x; }
};
//! trivially copyable, too large for the local storage
struct Large {
    int id, n = 0;
    long pad[6] = {1, 2, 3, 4, 5, 6};
    int operator()(int x) {
        REQUIRE(pad[0] == 1 && pad[5] == 6, "a stored functor is damaged");
        return ++w.calls, 6000 + id * 100 + n++ * 10 + x;
    }
};
//! exactly the size of the local storage
struct Exact {
    int id, n = 0;
    long pad = 77;
    int operator()(int x) {
        REQUIRE(pad == 77, "a stored functor is damaged");
        return ++w.calls, 7000 + id * 100 + n++ * 10 + x;
    }
};
static_assert(sizeof(Exact) == 16);
//! not trivially copyable, knows where it lives
struct NoPad {};
template<int Base, std::size_t Size, std::size_t Align>
struct alignas(Align) Tracked {
    int id, n = 0;
    const void* self = this;
    [[no_unique_address]] std::conditional_t<Size == 0, NoPad, std::array<char, Size>> pad{};
    explicit Tracked(int i) : id(i) { born(); }
    Tracked(const Tracked& o) : id(o.id), n(o.n), pad(o.pad) {
        o.check();
        w.point();
        ++w.copies;
        born();
    }
    Tracked(Tracked&& o) : id(o.id), n(o.n), pad(o.pad) {
        o.check();
        ++w.moves;
        o.id = -7;
        born();
    }
    ~Tracked() {
        check();
        w.alive.erase(this);
        self = nullptr;
    }
    void born() {
        REQUIRE(w.alive.insert(this).second, "a functor is constructed over another");
        REQUIRE(reinterpret_cast<std::uintptr_t>(this) % Align == 0, "a functor is misaligned");
    }
    void check() const { REQUIRE(self == this && w.alive.count(this), "a functor is used where none was constructed"); }
    int operator()(int x) {
        check();
        return ++w.calls, Base + id * 100 + n++ * 10 + x;
    }
    static void* operator new(std::size_t s) {
        w.point();
        ++w.blocks;
        return ::operator new(s, std::align_val_t(std::max<std::size_t>(Align, 16)));
    }
    static void* operator new(std::size_t s, std::align_val_t) { return operator new(s); }
    static void* operator new(std::size_t, void* p) { return p; }
    static void operator delete(void* p) { dealloc(p); }
    static void operator delete(void* p, std::align_val_t) { dealloc(p); }
    static void dealloc(void* p) {
        --w.blocks;
        ::operator delete(p, std::align_val_t(std::max<std::size_t>(Align, 16)));
    }
};
using Fits    = Tracked<8000, 0, 8>;     // (could fit but for its copy constructor)
static_assert(sizeof(Fits) == 16 && alignof(Fits) == 8);
using Big     = Tracked<9000, 40, 8>;
using Aligned = Tracked<10000, 8, 64>;
struct Tiny {  // one byte, not trivially copyable
    unsigned char id;
    explicit Tiny(int i) : id(i) { ++w.made; }
    Tiny(const Tiny& o) : id(o.id) { w.point(), ++w.copies, ++w.made; }
    Tiny(Tiny&& o) : id(o.id) { ++w.moves, ++w.made; }
    ~Tiny() { --w.made; }
    int operator()(int x) const { return ++w.calls, 11000 + id * 100 + x; }
};

//! could fit, has a trivial destructor, and knows where it lives
struct Settled {
    const void* self = this;
    short id, n = 0;
    explicit Settled(int i) : id(i) {}
    Settled(const Settled& o) : id(o.id), n(o.n) {
        o.check();
        w.point();
        ++w.copies;
    }
    Settled(Settled&& o) : id(o.id), n(o.n) {
        o.check();
        ++w.moves;
        o.id = -7;
    }
    void check() const { REQUIRE(self == this, "the bytes of a functor with a copy constructor of its own were copied"); }
    int operator()(int x) {
        check();
        return ++w.calls, 12000 + id * 100 + n++ * 10 + x;
    }
};
static_assert(sizeof(Settled) == 16 && std::is_trivially_destructible_v<Settled>);
//! trivially copyable, of a size that would fit, but of a stricter alignment
struct alignas(16) Strict {
    int id, n = 0;
    int operator()(int x) {
        const void* at = this;
        asm volatile("" : "+r"(at));  // the compiler takes the alignment for granted
        REQUIRE(reinterpret_cast<std::uintptr_t>(at) % 16 == 0, "a functor that is to be aligned to 16 bytes is at %p", at);
        return ++w.calls, 13000 + id * 100 + n++ * 10 + x;
    }
};
static_assert(sizeof(Strict) == 16);

enum Kind { none, k_plain, k_plain2, k_noexcept, k_stateless, k_small, k_large, k_exact, k_fits, k_big, k_aligned, k_tiny, k_settled, k_strict, kinds };
static const char* kind_name[] = {"nothing", "a function", "another function", "a noexcept function", "a lambda", "a small functor",
                                  "a large functor", "a functor of 16 bytes", "a small non-trivial functor", "a large non-trivial functor",
                                  "an over-aligned functor", "a one-byte non-trivial functor", "a small functor with a trivial destructor only", "a small functor aligned to 16 bytes"};
struct Model {
    int kind = none, id = 0, n = 0;
    int call(int x) {
        switch(kind) {
            case k_plain: return 1000 + x;
            case k_plain2: return 2000 + x;
            case k_noexcept: return 3000 + x;
            case k_stateless: return 4000 + x;
            case k_small: return 5000 + id * 100 + n++ * 10 + x;
            case k_large: return 6000 + id * 100 + n++ * 10 + x;
            case k_exact: return 7000 + id * 100 + n++ * 10 + x;
            case k_fits: return 8000 + id * 100 + n++ * 10 + x;
            case k_big: return 9000 + id * 100 + n++ * 10 + x;
            case k_aligned: return 10000 + id * 100 + n++ * 10 + x;
            case k_tiny: return 11000 + id * 100 + x;
            case k_settled: return 12000 + id * 100 + n++ * 10 + x;
            case k_strict: return 13000 + id * 100 + n++ * 10 + x;
        }
        return 0;
    }
    bool operator==(const Model&) const = default;
};
//! calls f with a callable of kind k
template<typename F>
void with(int k, int id, F f) {
    switch(k) {
        case k_plain: return f(&plain);
        case k_plain2: return f(&plain_other);
        case k_noexcept: return f(&plain_noexcept);
        case k_stateless: return f(stateless);
        case k_small: return f(Small{id});
        case k_large: return f(Large{id});
        case k_exact: return f(Exact{id});
        case k_fits: return f(Fits(id));
        case k_big: return f(Big(id));
        case k_aligned: return f(Aligned(id));
        case k_tiny: return f(Tiny(id));
        case k_settled: return f(Settled(id));
        case k_strict: return f(Strict{id});
    }
}

struct Sys {
    static constexpr int N = 3;
    static constexpr std::size_t Stride = (sizeof(D) + 15) / 16 * 16 + alignof(D) % 16;  // not all delegates are aligned to more than they need
    alignas(16) unsigned char room[N * Stride];
    struct Places {
        unsigned char* at;
        unsigned char* operator[](int i) const { return at + i * Stride; }
    } mem{room};
    Model m[N];
    D& d(int i) { return *reinterpret_cast<D*>(mem[i]); }
    const std::vector<int>& ks;  // the kinds of this scenario
    explicit Sys(const std::vector<int>& k) : ks(k) {
        w = World{};
        for(int i = 0; i < N; ++i)
            ::new(mem[i]) D;
    }
    enum Op { assign_r, assign_l, assign_const, construct, construct_l, assign_fault, construct_fault, forms };
    std::uint32_t ops() const { return ks.size() * forms * N + N * N * 7 + N * 4; }
    bool apply(std::uint32_t op) {
        const long copies = w.copies, moves = w.moves;
        if(op < ks.size() * forms * N) {
            const int i = op % N, form = op / N % forms, k = ks[op / N / forms];
            const int id = 1 + i;
            bool threw   = false;
            Model was    = m[i];
            with(k, id, [&](auto f) {
                using F = decltype(f);
                w.faulted = false;
                try {
                    switch(form) {
                        case assign_r: OP("d%d = rvalue of %s", i, kind_name[k]); d(i) = std::move(f); break;
                        case assign_l: OP("d%d = lvalue of %s", i, kind_name[k]); d(i) = f; break;
                        case assign_const: OP("d%d = const lvalue of %s", i, kind_name[k]); d(i) = std::as_const(f); break;
                        case construct:
                            OP("d%d made anew from an rvalue of %s", i, kind_name[k]);
                            d(i).~D();
                            ::new(mem[i]) D(std::move(f));
                            break;
                        case construct_l:
                            OP("d%d made anew from an lvalue of %s", i, kind_name[k]);
                            d(i).~D();
                            ::new(mem[i]) D(f);
                            break;
                        case assign_fault:
                            OP("d%d = lvalue of %s, whose copy or allocation fails", i, kind_name[k]);
                            w.fault = 1;
                            d(i)    = f;
                            break;
                        case construct_fault:
                            OP("D(lvalue of %s), whose copy fails after the allocation", kind_name[k]);
                            w.fault = 2;
                            d(i)    = f;
                            break;
                    }
                    w.fault = 0;
                }
                catch(const std::runtime_error&) {
                    threw = true;
                }
                w.fault = 0;
                if constexpr(requires { f.id; }) {
                    const bool kept = id_of(f) == Model{k, id, 0};
                    REQUIRE(form == assign_r || form == construct || kept, "the callable assigned from was changed");
                }
            });
            REQUIRE(threw == w.faulted, "an exception of a callable was %s", w.faulted ? "swallowed" : "invented");
            if(threw)
                m[i] = was;
            else
                m[i] = {k, k >= k_small ? id : 0, 0};
            if(form == assign_r || form == construct)
                REQUIRE(w.copies == copies, "a callable given as an rvalue was copied");
            REQUIRE(k < k_fits || k == k_strict || threw || w.copies + w.moves > copies + moves, "a non-trivial functor was stored without constructing it");
        }
        else if((op -= ks.size() * forms * N) < N * N * 7) {
            const int i = op % N, j = op / N % N, form = op / N / N;
            Model was_i = m[i], was_j = m[j];
            bool threw  = false;
            w.faulted   = false;
            try {
                switch(form) {
                    case 0:
                        OP("d%d = d%d", i, j);
                        d(i) = std::as_const(d(j));
                        m[i] = m[j];
                        break;
                    case 1: {
                        OP("d%d = std::move(d%d)", i, j);
                        D& r = d(i) = std::move(d(j));
                        REQUIRE(&r == &d(i), "= does not return its left side");
                        Model t = m[j];
                        if(i != j)
                            m[j] = {};
                        m[i] = t;
                        REQUIRE(w.copies == copies && w.moves == moves, "moving a delegate copied or moved its functor");
                        break;
                    }
                    case 2:
                        OP("d%d.swap(d%d)", i, j);
                        d(i).swap(d(j));
                        std::swap(m[i], m[j]);
                        REQUIRE(w.copies == copies && w.moves == moves, "swapping delegates copied or moved a functor");
                        break;
                    case 3:
                        if(i == j)
                            return false;
                        OP("d%d made anew from d%d", i, j);
                        d(i).~D();
                        ::new(mem[i]) D(std::as_const(d(j)));
                        m[i] = m[j];
                        break;
                    case 4:
                        if(i == j)
                            return false;
                        OP("d%d made anew from std::move(d%d)", i, j);
                        d(i).~D();
                        ::new(mem[i]) D(std::move(d(j)));
                        m[i] = m[j];
                        m[j] = {};
                        REQUIRE(w.copies == copies && w.moves == moves, "moving a delegate copied or moved its functor");
                        break;
                    case 5:
                    case 6: {
                        OP("d%d = d%d, failing at the %s", i, j, form == 5 ? "first point" : "second point");
                        w.fault = form - 4;
                        d(i)    = d(j);
                        w.fault = 0;
                        m[i]    = m[j];
                        break;
                    }
                }
            }
            catch(const std::runtime_error&) {
                threw = true;
                m[i]  = was_i;
                m[j]  = was_j;
            }
            w.fault = 0;
            REQUIRE(threw == w.faulted, "an exception of a callable was %s", w.faulted ? "swallowed" : "invented");
        }
        else {
            op -= N * N * 7;
            const int i = op % N, form = op / N;
            switch(form) {
                case 0:
                case 1: {
                    if(m[i].n >= 2)
                        return false;
                    OP("call %sd%d", form ? "const " : "", i);
                    call(i, form, m[i]);
                    break;
                }
                case 2: {
                    OP("d%d = nullptr", i);
                    D& r = d(i) = nullptr;
                    REQUIRE(&r == &d(i), "= does not return its left side");
                    m[i] = {};
                    break;
                }
                case 3: {
                    OP("d%d = null function pointer", i);
                    int (*null)(int) = nullptr;
                    d(i)             = null;
                    m[i]             = {};
                    break;
                }
            }
        }
        check();
        return true;
    }
    void call(int i, bool as_const, Model& mod) {
        const long calls = w.calls, copies = w.copies, moves = w.moves;
        if(mod.kind == none) {
            bool threw = false;
            try {
                as_const ? std::as_const(d(i))(3) : d(i)(3);
            }
            catch(const std::bad_function_call&) {
                threw = true;
            }
            REQUIRE(threw, "calling an empty delegate does not throw bad_function_call");
            return;
        }
        int got  = as_const ? std::as_const(d(i))(3) : d(i)(3);
        int want = mod.call(3);
        REQUIRE(got == want, "d%d gives %d, not %d (%s)", i, got, want, kind_name[mod.kind]);
        REQUIRE(w.calls - calls == (mod.kind >= k_small), "the callable was called %ld times", w.calls - calls);
        REQUIRE(w.copies == copies && w.moves == moves, "calling copied or moved the callable");
    }
    template<typename F>
    static Model id_of(const F& f) {
        int k = std::is_same_v<F, Small> ? k_small : std::is_same_v<F, Large> ? k_large : std::is_same_v<F, Exact> ? k_exact
              : std::is_same_v<F, Fits> ? k_fits : std::is_same_v<F, Big> ? k_big : std::is_same_v<F, Aligned> ? k_aligned : std::is_same_v<F, Settled> ? k_settled : std::is_same_v<F, Strict> ? k_strict : k_tiny;
        if constexpr(requires { f.n; })
            return {k, f.id, f.n};
        else if constexpr(requires { f.id; })
            return {k, f.id, 0};
        else
            return {k_stateless, 1, 0};
    }
    template<typename F>
    void handle(int i, int kind) {
        const F* h = std::as_const(d(i)).template handle<F>();
        REQUIRE((h != nullptr) == (m[i].kind == kind), "handle of %s in a delegate holding %s is %s", kind_name[kind], kind_name[m[i].kind], h ? "not null" : "null");
        if(h) {
            const void* at = h;
            asm volatile("" : "+r"(at));
            REQUIRE(reinterpret_cast<std::uintptr_t>(at) % alignof(F) == 0, "a functor is stored misaligned");
            REQUIRE(id_of(*h) == m[i], "d%d holds id %d after %d calls, expected id %d after %d", i, id_of(*h).id, id_of(*h).n, m[i].id, m[i].n);
            for(int j = 0; j < N; ++j)
                REQUIRE(j == i || (const void*)d(j).template handle<F>() != (const void*)h, "two delegates share a functor");
            if constexpr(requires { h->check(); })
                h->check();
        }
    }
    void check() {
        std::size_t alive = 0;
        long tiny         = 0;
        for(int i = 0; i < N; ++i) {
            REQUIRE(static_cast<bool>(std::as_const(d(i))) == (m[i].kind != none), "d%d is %s, but should hold %s", i, d(i) ? "not empty" : "empty", kind_name[m[i].kind]);
            handle<Small>(i, k_small);
            handle<Large>(i, k_large);
            handle<Exact>(i, k_exact);
            handle<Fits>(i, k_fits);
            handle<Big>(i, k_big);
            handle<Aligned>(i, k_aligned);
            handle<Tiny>(i, k_tiny);
            handle<Settled>(i, k_settled);
            handle<Strict>(i, k_strict);
            REQUIRE(d(i).handle<long>() == nullptr && d(i).handle<D>() == nullptr, "handle of a type not held is not null");
            const auto* fp = d(i).handle<int (*)(int)>();
            REQUIRE((fp != nullptr) == (m[i].kind == k_plain || m[i].kind == k_plain2), "handle of a function pointer");
            REQUIRE(!fp || *fp == (m[i].kind == k_plain ? &plain : &plain_other), "handle of a function pointer gives another one");
            const auto* fn = d(i).handle<int (*)(int) noexcept>();
            REQUIRE((fn != nullptr) == (m[i].kind == k_noexcept), "handle of a noexcept function pointer");
            alive += m[i].kind == k_fits || m[i].kind == k_big || m[i].kind == k_aligned;
            tiny += m[i].kind == k_tiny;
        }
        REQUIRE(w.alive.size() == alive && w.made == tiny, "%zu functors are alive, %zu should be", w.alive.size() + w.made, alive + tiny);
        REQUIRE(w.blocks <= (long)alive, "%ld blocks for %zu functors", w.blocks, alive);
    }
    std::string key() {
        std::string s;
        for(auto& x : m)
            s += std::to_string(x.kind) + "/" + std::to_string(x.id) + "/" + std::to_string(x.n) + " ";
        return s;
    }
    void finish() {
        for(int i = 0; i < N; ++i) {
            Model x = m[i];
            call(i, i & 1, x);
            // copies are independent: the others have not been called
            m[i] = x;
            check();
        }
        for(int i = 0; i < N; ++i)
            d(i).~D();
        REQUIRE(w.alive.empty() && w.made == 0 && w.blocks == 0, "%zu functors and %ld blocks are left over", w.alive.size() + w.made, w.blocks);
    }
};

static std::vector<std::vector<int>> groups() {
    std::vector<std::vector<int>> g;
    if(mc::thorough)  // every three kinds together
        for(int a = 1; a < kinds; ++a)
            for(int b = a + 1; b < kinds; ++b)
                for(int c = b + 1; c < kinds; ++c)
                    g.push_back({a, b, c});
    else
        g = {{k_plain, k_small, k_big}, {k_fits, k_large, k_exact}, {k_aligned, k_tiny, k_small}, {k_stateless, k_noexcept, k_fits}, {k_big, k_aligned, k_plain2},
             {k_large, k_tiny, k_plain}, {k_exact, k_big, k_fits}, {k_settled, k_small, k_big}, {k_plain, k_plain2, k_noexcept}, {k_strict, k_exact, k_aligned}};
    return g;
}

// ---- arguments, results and kinds of callable ---------------------------------------------------
struct Arg {
    int v;
    static inline int copies = 0, moves = 0;
    Arg(int i) : v(i) {}
    Arg(const Arg& o) : v(o.v) { ++copies; }
    Arg(Arg&& o) : v(o.v) { o.v = -1, ++moves; }
};
struct Obj {
    int v;
    explicit Obj(int i) : v(i) {}
    int get(int x) const { return v * 10 + x; }
    int set(int x) { return v = x; }
    int get_rvalue(int x) && { return v * 100 + x; }
    int noexc(int x) noexcept { return v + x; }
    virtual int virt(int x) { return 1; }
    static int stat(int x) { return x + 9; }
};
struct Derived : Obj {
    Derived() : Obj(0) {}
    int virt(int x) override { return 2; }
};
static int overload(int& x) { return x += 1; }
static void arguments() {
#define once(...) once_(#__VA_ARGS__, {__VA_ARGS__})
    auto once_ = [](const char* text, std::initializer_list<bool> c) {  // (braces: evaluated in order)
        int n = 0;
        for(bool ok : c)
            REQUIRE(++n && ok, "an argument, result or callable was not passed on as it should be (condition %d of: %s)", n, text);
        mc::evaluated_once();
    };
    for(int v = 0; v < 4; ++v) {
        mc::g_trail->loglen = 0;
        mc::log("argument value %d", v);
        {  // references refer to the caller's object
            const void* seen = nullptr;
            Delegate<void(Arg&)> l([&](Arg& a) { seen = &a, a.v += 10; });
            Delegate<void(const Arg&)> c([&](const Arg& a) { seen = &a; });
            Delegate<void(Arg&&)> r([&](Arg&& a) { seen = &a, a.v += 100; });
            Arg a(v);
            Arg::copies = Arg::moves = 0;
            l(a);
            once(seen == &a, a.v == v + 10);
            c(a);
            once(seen == &a);
            r(std::move(a));
            once(seen == &a, a.v == v + 110, Arg::copies == 0, Arg::moves == 0);
        }
        {  // values: an rvalue is never copied, an lvalue once
            int got = -5;
            Delegate<int(Arg)> d([&](Arg a) { return got = a.v; });
            Arg a(v);
            Arg::copies = 0;
            once(d(std::move(a)) == v, got == v, Arg::copies == 0);
            Arg b(v + 1);
            once(d(b) == v + 1, b.v == v + 1, Arg::copies == 1);
            Delegate<std::unique_ptr<int>(std::unique_ptr<int>, int)> u([](std::unique_ptr<int> p, int n) { *p += n; return p; });
            auto p  = std::make_unique<int>(v);
            int* at = p.get();
            auto q  = u(std::move(p), 5);
            once(!p.operator bool(), q.get() == at, *q == v + 5);
        }
        {  // results
            int x = v;
            Delegate<int&(int&)> r([](int& i) -> int& { return i; });
            once(&r(x) == &x);
            static const std::string s = "text";
            Delegate<const std::string&()> cs([]() -> const std::string& { return s; });
            once(&cs() == &s);
            Delegate<long(int)> conv([](int i) { return short(i); });
            once(conv(v) == v);
            int calls = 0;
            Delegate<void()> nothing([&] { ++calls; });
            nothing();
            nothing();
            once(calls == 2);
        }
        {  // the order of many arguments
            Delegate<std::string(int, char, std::string, long, double)> many([](int a, char b, std::string c, long d, double e) {
                return std::to_string(a) + b + c + std::to_string(d) + std::to_string((int)e);
            });
            once(many(v, 'x', "yz", 3, 4.0) == std::to_string(v) + "xyz34");
        }
        {  // pointers to members
            Obj o{v};
            Derived der;
            Delegate<int(Obj&, int)> m(&Obj::get), s(&Obj::set), n(&Obj::noexc), virt(&Obj::virt);
            once(m(o, 3) == v * 10 + 3, s(o, 8) == 8, o.v == 8, n(o, 1) == 9, virt(o, 0) == 1, virt(der, 0) == 2);
            Delegate<int(Obj*, int)> p(&Obj::get);
            once(p(&o, 2) == 82);
            Delegate<int(const Obj&, int)> c(&Obj::get);
            once(c(o, 1) == 81);
            Delegate<int(std::shared_ptr<Obj>, int)> sp(&Obj::get);
            once(sp(std::make_shared<Obj>(Obj{4}), 2) == 42);
            Delegate<int(Obj&&, int)> rv(&Obj::get_rvalue);
            once(rv(Obj{2}, 1) == 201);
            Delegate<int&(Obj&)> data(&Obj::v);
            data(o) = 55;
            once(o.v == 55, &data(o) == &o.v);
            Delegate<int(int)> st(&Obj::stat);
            once(st(v) == v + 9);
            int (Obj::*null)(int) = nullptr;
            int Obj::*nulld       = nullptr;
            Delegate<int(Obj&, int)> e(null);
            Delegate<int&(Obj&)> f(nulld);
            once(!e, !f, bool(m), bool(data));
            s = m;
            once(s(o, 1) == 551, m(o, 1) == 551);
            m = nullptr;
            once(!m, s(o, 1) == 551);
            s = std::move(n);
            once(!n, s(o, 1) == 56);
            e.swap(s);
            once(!s, e(o, 2) == 57);
            e = null;
            once(!e);
        }
        {  // functions, references to them, and wrappers
            Delegate<int(int&)> a(overload), b(&overload), c(std::ref(overload));
            int x = v;
            once(a(x) == v + 1, b(x) == v + 2, c(x) == v + 3, x == v + 3);
            Small big{v};
            Delegate<int(int)> ref(std::ref(big));
            ref(0);
            once(big.n == 1, ref.handle<std::reference_wrapper<Small>>() != nullptr, &ref.handle<std::reference_wrapper<Small>>()->get() == &big);
        }
        {  // exceptions of the callable reach the caller and leave the delegate as it was
            Delegate<int(int)> d([n = 0](int x) mutable {
                if(++n == 2)
                    throw std::out_of_range("x");
                return n * 10 + x;
            });
            bool threw = false;
            int r1     = d(v);
            try {
                d(v);
            }
            catch(const std::out_of_range&) {
                threw = true;
            }
            once(r1 == 10 + v, threw, bool(d), d(v) == 30 + v);
        }
        {  // a delegate of another signature is a callable like any other
            Delegate<int(int)> in([](int x) { return x * 2; });
            Delegate<long(int)> out(in);
            in = nullptr;
            once(out(v) == v * 2, out.handle<Delegate<int(int)>>() != nullptr);
        }
    }
    // deduction
    {
        Delegate a(&plain);
        static_assert(std::is_same_v<decltype(a), Delegate<int(int)>>);
        Delegate b([](int, char&) -> long { return 1; });
        static_assert(std::is_same_v<decltype(b), Delegate<long(int, char&)>>);
        Delegate c([n = 1](std::string) mutable noexcept { return n; });
        static_assert(std::is_same_v<decltype(c), Delegate<int(std::string)>>);
        struct Cl { int operator()(int) &; };
        struct Cc { int operator()(int) const& noexcept; };
        static_assert(std::is_same_v<decltype(Delegate(std::declval<Cl>())), Delegate<int(int)>>);
        static_assert(std::is_same_v<decltype(Delegate(std::declval<Cc>())), Delegate<int(int)>>);
        Delegate d(plain_noexcept);
        static_assert(std::is_same_v<decltype(d), Delegate<int(int)>>);
        once(a(1) == 1001, d(1) == 3001);
        static_assert(std::is_nothrow_move_constructible_v<D> && std::is_nothrow_move_assignable_v<D> && std::is_nothrow_swappable_v<D>);
    }
    mc::sample("arguments by value and reference, results, member pointers, wrappers");
}

static void setup() {
    auto gs = groups();
    for(auto& g : gs) {
        std::string n = "histories";
        for(int k : g)
            n += "-" + std::to_string(k);
        mc::add(n, [g] { mc::bfs<Sys>({mc::thorough ? 40 : 40}, g); });
    }
    mc::add("arguments", arguments);
}
MC_MAIN(setup)
