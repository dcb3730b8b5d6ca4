// C10: what a queue holds and can take, for every index pair of every capacity, used by one thread.
#include "spsc_sys.hpp"
using namespace qs;
struct Num {
    int v;
    Num(int x) : v(x) {}
    Num(int x, int y) : v(x + y) {}
    int id() const { return v; }
};
template<typename Al, u64 N>
static void fixpoint() {
    mc::bfs<Sys<Num, Al, N>>({(int)(3 * N + 6)}, false);
    REQUIRE(mc::st.states == N * N || N == 1, "harness: %llu states instead of %llu", (unsigned long long)mc::st.states, (unsigned long long)(N * N));
}
//! all patterns of up to four runs (push a, take b, push c, take d), repeated over many laps of the indices
template<typename Al, u64 N>
static void laps() {
    const int rounds = mc::thorough ? 40 * N : 5 * N + 3;
    for(u64 a = 1; a <= N; ++a)
        for(u64 b = 1; b <= N; ++b)
            for(u64 c = 0; c <= N; ++c)
                for(u64 d = 0; d <= N; ++d) {
                    mc::begin_case();
                    Sys<Num, Al, N> s(false);
                    for(int r = 0; r < rounds; ++r) {
                        mc::g_trail->loglen = 0;
                        OP("round %d of push %d, take %d, push %d, take %d with %zu elements", r, (int)a, (int)b, (int)c, (int)d, s.ref.size());
                        for(u64 i = 0; i < a; ++i)
                            s.apply(i % 2 ? Emp1 : PushL);
                        for(u64 i = 0; i < b; ++i)
                            s.apply(i % 2 ? Consume : Pop);
                        for(u64 i = 0; i < c; ++i)
                            s.apply(i % 2 ? PushR : PushConv);
                        for(u64 i = 0; i < d; ++i)
                            s.apply(i % 2 ? Pop : Consume);
                        mc::st.transitions += a + b + c + d;
                    }
                    s.finish();
                    ++mc::st.execs;
                    ++mc::st.states;
                }
}
static void capacities() {
    using Q = xme::SPSCQueue<int>;
    for(u64 n = 1; n <= (mc::thorough ? 1u << 16 : 1u << 12); ++n) {
        mc::begin_case();
        OP("a queue of capacity %llu", (unsigned long long)n);
        const bool good = (n & (n - 1)) == 0;
        if(good) {
            Q q(n);
            for(u64 i = 0; i + 1 < n; ++i)
                REQUIRE(q.push((int)i) && q.read_available() == i + 1 && q.write_available() == n - 2 - i, "filling it at %llu", (unsigned long long)i);
            REQUIRE(!q.push(1), "a full queue took another element");
            u64 want = 0;
            while(q.read_available()) {
                q.consume([&](int x) { REQUIRE((u64)x == want, "%d out instead of %llu", x, (unsigned long long)want); });
                ++want;
            }
            REQUIRE(want + 1 == n, "%llu elements came out", (unsigned long long)want);
        }
#ifndef NDEBUG
        else
            REQUIRE(mc::rejects([&] { Q q(n); }), "the capacity %llu was not rejected", (unsigned long long)n);
#endif
        ++mc::st.execs;
        ++mc::st.states;
    }
#ifndef NDEBUG
    OP("a queue of capacity 0");
    REQUIRE(mc::rejects([&] { Q q(0); }), "the capacity 0 was not rejected");
#endif
}
template<u64 N>
static void cap(const char* n) {
    mc::add(std::string("static.") + n, [] { fixpoint<void, N>(); });
    mc::add(std::string("dynamic.") + n, [] { fixpoint<std::allocator<Num>, N>(); });
    if constexpr(N <= 8) {
        mc::add(std::string("laps.static.") + n, [] { laps<void, N>(); });
        mc::add(std::string("laps.dynamic.") + n, [] { laps<std::allocator<Num>, N>(); });
    }
}
static void setup() {
    cap<1>("1");
    cap<2>("2");
    cap<4>("4");
    cap<8>("8");
    cap<16>("16");
    if(mc::thorough)
        cap<32>("32");
    mc::add("capacities", capacities);
}
MC_MAIN(setup)
