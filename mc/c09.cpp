// C09 (and the concurrent part of C10): SPSCQueue in every schedule and every outcome of the memory model.
#include "wm.hpp"
#include <memory>
#include <xme/container/spsc_queue.hpp>
using u64 = std::uint64_t;
static long g_made, g_gone;
static u64 g_destroyed_now;
//! two words that only agree when fully constructed
struct Plain {
    u64 a, b;
    Plain(u64 x) : a(x), b(~x) {}
    Plain(const Plain& o) : a(o.a), b(o.b) {}
    u64 value() const {
        if(b != ~a)
            mc::fail("an element was received that is not fully constructed");
        return a;
    }
};
struct Counted {
    u64 a, b;
    Counted(u64 x) : a(x), b(~x) { ++g_made; }
    Counted(const Counted& o) : a(o.a), b(o.b) { ++g_made; }
    ~Counted() {
        const u64 v = value();
        if(wm::owns(this))  // not one of the caller's temporaries
            g_destroyed_now = v;
        a = b = 0xDEAD;
        ++g_gone;
    }
    u64 value() const {
        if(b != ~a)
            mc::fail("an element was received or destroyed that is not fully constructed");
        return a;
    }
};
struct Small {
    std::uint32_t a;
    Small(u64 x) : a(x) {}
    u64 value() const { return a; }
};
//! puts the buffer of a dynamic queue where the explorer watches it
template<typename T>
struct ArenaAlloc {
    using value_type                             = T;
    using size_type                              = std::size_t;
    using difference_type                        = std::ptrdiff_t;
    using propagate_on_container_move_assignment = std::true_type;
    using propagate_on_container_swap            = std::true_type;
    using is_always_equal                        = std::true_type;
    ArenaAlloc()                                 = default;
    template<typename U>
    ArenaAlloc(const ArenaAlloc<U>&) {}
    template<typename U>
    struct rebind {
        using other = ArenaAlloc<U>;
    };
    T* allocate(std::size_t n) { return static_cast<T*>(wm::arena(n * sizeof(T), alignof(T))); }
    void deallocate(T*, std::size_t) {}
    friend bool operator==(const ArenaAlloc&, const ArenaAlloc&) { return true; }
};

template<typename T, bool Dynamic, u64 N>
struct Run {
    using Q = xme::SPSCQueue<T, std::conditional_t<Dynamic, ArenaAlloc<T>, xme::Capacity<N>>>;
    static inline Q* q;
    static inline u64 pushed, popped;            // in the order of the schedule
    static inline std::uint32_t push_at[32], pop_at[32];  // epoch each completed at
    static inline int attempts_p, attempts_c;
    static inline bool weak;

    //! pushes (pops) that certainly precede this moment for the calling thread
    static u64 known_pushes() {
        if(!weak)
            return pushed;
        u64 n = 0;
        while(n < pushed && wm::knows(1, push_at[n]))
            ++n;
        return n;
    }
    static u64 known_pops() {
        if(!weak)
            return popped;
        u64 n = 0;
        while(n < popped && wm::knows(2, pop_at[n]))
            ++n;
        return n;
    }
    static bool push(u64 kind, bool must) {
        wm::call(100 + kind + 10 * must, pushed);
        const u64 known = known_pops(), before = pushed;
        const auto at = wm::stamp();
        bool ok;
        switch(kind) {
        case 0: {
            const T v(pushed + 1);
            ok = q->push(v);
            break;
        }
        case 1: ok = q->push(T(pushed + 1)); break;
        default: ok = q->emplace(pushed + 1); break;
        }
        OP("producer: push %llu -> %s", (unsigned long long)before + 1, ok ? "true" : "false");
        if(ok) {
            REQUIRE(before + 1 - popped <= N - 1, "push succeeded with %llu elements in a queue for %llu", (unsigned long long)(before - popped), (unsigned long long)(N - 1));
            push_at[pushed++] = at;
        }
        else {
            REQUIRE(before - known >= N - 1, "push reported false although the queue held at most %llu of %llu during the call", (unsigned long long)(before - known), (unsigned long long)(N - 1));
            REQUIRE(!must, "write_available promised a push that then failed");
        }
        return ok;
    }
    static void take(u64 kind) {
        wm::call(200 + kind, popped);
        const auto at = wm::stamp();
        if(kind == 0) {
            int calls = 0;
            u64 got   = 0;
            q->consume([&](auto&& v) {
                static_assert(std::is_same_v<decltype(v), T&&>);
                got = v.value();
                ++calls;
            });
            OP("consumer: consume -> %llu", (unsigned long long)got);
            REQUIRE(calls == 1, "consume called its function %d times", calls);
            REQUIRE(got == popped + 1, "the consumer received element %llu instead of %llu", (unsigned long long)got, (unsigned long long)popped + 1);
        }
        else {
            g_destroyed_now = 0;
            q->pop();
            OP("consumer: pop");
            if(std::is_same_v<T, Counted>)
                REQUIRE(g_destroyed_now == popped + 1, "pop destroyed element %llu instead of %llu", (unsigned long long)g_destroyed_now, (unsigned long long)popped + 1);
        }
        REQUIRE(popped < pushed, "an element was taken that was not pushed");
        pop_at[popped++] = at;
    }
    static u64 room(u64 key) {
        wm::call(key, pushed);
        const u64 known = known_pops();
        u64 n           = q->write_available();
        OP("producer: write_available -> %llu", (unsigned long long)n);
        REQUIRE(n <= N - 1 - (pushed - popped), "write_available is %llu with room for %llu", (unsigned long long)n, (unsigned long long)(N - 1 - (pushed - popped)));
        REQUIRE(n >= N - 1 - (pushed - known), "write_available is %llu although %llu have been free since before the call", (unsigned long long)n, (unsigned long long)(N - 1 - (pushed - known)));
        return n;
    }
    static u64 stock(u64 key) {
        wm::call(key, popped);
        const u64 known = known_pushes();
        u64 n           = q->read_available();
        OP("consumer: read_available -> %llu", (unsigned long long)n);
        REQUIRE(n <= pushed - popped, "read_available is %llu with %llu elements in the queue", (unsigned long long)n, (unsigned long long)(pushed - popped));
        REQUIRE(n + popped >= known, "read_available is %llu although %llu elements were pushed before the call", (unsigned long long)n, (unsigned long long)(known - popped));
        return n;
    }
    static void producer() {
        for(int i = 0; i < attempts_p; ++i) {
            wm::call(1000 + i, pushed);
            u64 kind = wm::choose(3);
            if(kind < 2)
                push(i % 2 ? 2 : kind, false);
            else
                for(u64 n = room(1100 + i), k = 0; k < n; ++k)
                    push((k + i) % 3, true);
        }
        wm::call(999, pushed);
    }
    static void consumer() {
        for(int i = 0; i < attempts_c; ++i) {
            wm::call(2000 + i, popped);
            u64 kind = wm::choose(3);
            u64 n    = stock(2100 + 10 * i + kind);
            if(kind < 2)
                n = n ? 1 : 0;
            for(u64 k = 0; k < n; ++k)
                take(kind < 2 ? kind : k % 2);
        }
        wm::call(999, popped);
    }
    static void explore(int ap, int ac, bool weak_) {
        attempts_p = ap;
        attempts_c = ac;
        weak       = weak_;
        mc::dfs([&](mc::Choices& ch) {
            pushed = popped = 0;
            g_made = g_gone = 0;
            wm::begin(ch, weak_);
            void* mem = wm::arena(sizeof(Q), alignof(Q));
            if constexpr(Dynamic)
                q = ::new(mem) Q(N);
            else
                q = ::new(mem) Q();
            // some rounds first, so that the indices wrap during the run
            int warm = N == 1 ? 0 : ch(N > 2 ? 3 : 2);
            for(int i = 0; i < warm; ++i) {
                push(i % 3, true);
                take(i % 2);
            }
            for(u64 i = 0; i < pushed; ++i)
                push_at[i] = pop_at[i] = 0;
            wm::spawn(producer);
            wm::spawn(consumer);
            if(!wm::run())
                return;
            OP("both joined: %llu pushed, %llu taken", (unsigned long long)pushed, (unsigned long long)popped);
            REQUIRE(q->read_available() == pushed - popped, "%zu available after both finished, %llu were pushed and not taken", q->read_available(), (unsigned long long)(pushed - popped));
            REQUIRE(q->write_available() == N - 1 - (pushed - popped), "write_available is %zu after both finished", q->write_available());
            bool drain = (pushed + popped) % 2;
            while(drain && popped < pushed)
                take(0);
            q->~Q();
            if(std::is_same_v<T, Counted>)
                REQUIRE(g_made == g_gone, "%ld elements constructed, %ld destroyed", g_made, g_gone);
        });
        mc::st.states += wm::n_states;
        mc::st.transitions += wm::n_transitions;
        mc::st.extra["pruned_at_known_states"] += wm::n_pruned;
    }
};
template<typename T, bool D, u64 N>
static void add(const char* name, int ap, int ac) {
    mc::add(std::string("weak.") + name, [=] { Run<T, D, N>::explore(ap, ac, true); });
    mc::add(std::string("sc.") + name, [=] { Run<T, D, N>::explore(ap, ac, false); });
}
static void setup() {
    const int t = mc::thorough;
    add<Plain, false, 2>("plain.static2", 4 + t, 4 + t);
    add<Counted, false, 2>("counted.static2", 4 + t, 4 + t);
    add<Plain, false, 4>("plain.static4", 3 + t, 3 + t);
    add<Counted, true, 4>("counted.dynamic4", 3 + t, 3 + t);
    add<Plain, true, 2>("plain.dynamic2", 4 + t, 4 + t);
    add<Small, true, 8>("small.dynamic8", 2 + t, 3 + t);
    add<Counted, false, 1>("counted.static1", 3 + t, 3 + t);
}
MC_MAIN(setup)
