// C11: lifetimes of the elements of SPSCQueue, with and without throwing constructors.
#include "spsc_sys.hpp"
using namespace qs;
//! every (offset, size) of the queue, every operation, every fault point of it, then use and destruction
template<typename T, typename Al, u64 N>
static void faults() {
    for(u64 off = 0; off < N; ++off)
        for(u64 n = 0; n < N; ++n) {
            ++mc::st.states;
            for(int k = PushL; k <= Emp2; ++k)
                for(long at = 0;; ++at) {
                    mc::begin_case();
                    Sys<T, Al, N> s(true);
                    for(u64 i = 0; i < off; ++i) {
                        if(N == 1)
                            break;
                        s.apply(Emp1);
                        s.apply(Pop);
                    }
                    for(u64 i = 0; i < n; ++i)
                        s.apply(Emp1);
                    std::size_t alive = live.n;
                    // the temporary that is pushed is made first and passes one fault point of its own
                    fault_reset(at);
                    bool thrown = false, applies = true;
                    const int next = s.next;
                    try {
                        OP("%s with fault point %ld failing", names[k], at);
                        applies = s.push(k);
                    }
                    catch(Fault&) {
                        thrown = true;
                    }
                    const bool fired = fault_fired;
                    fault_reset(-1);
                    REQUIRE(thrown == fired, fired ? "the exception did not reach the caller" : "an exception came out of nothing");
                    (void)next;
                    if(thrown)
                        REQUIRE(live.n == alive, "lifetime: %zu elements are alive after a failed push instead of %zu", live.n, alive);
                    s.check();
                    // the queue still works
                    s.apply(k);
                    s.apply(Consume);
                    s.apply(Emp2);
                    s.apply(Emp1);
                    s.apply(Pop);
                    s.finish();
                    ++mc::st.execs;
                    ++mc::st.transitions;
                    if(!fired || !applies)
                        break;
                }
        }
}
template<typename T, u64 N>
static void one(const char* name) {
    using Al = tk::Alloc<T, false>;
    mc::add(std::string("history.static.") + name, [] { mc::bfs<Sys<T, void, N>>({3 * N + 6}, true); });
    mc::add(std::string("history.dynamic.") + name, [] { mc::bfs<Sys<T, Al, N>>({3 * N + 6}, true); });
    // without merging states
    mc::add(std::string("tree.dynamic.") + name, [] { mc::bfs<Sys<T, Al, N>>({mc::thorough ? 8 : 6, ~0ull, false}, true); });
}
//! the queue placed everywhere an object may be, elements at their alignment
static void placement() {
    auto use = [](auto& q) {
        for(int lap = 0; lap < 9; ++lap) {
            q.emplace(lap);
            q.emplace(lap, 1);
            q.consume([](auto&& x) { x.where(); });
            q.pop();
        }
        ++mc::st.execs;
        ++mc::st.transitions;
    };
    using A = Aligned<64>;
    using S = xme::SPSCQueue<A, xme::Capacity<4>>;
    struct In {
        char c;
        S q;
    };
    for(int n = 0; n < 8; ++n) {
        mc::begin_case();
        OP("static queues of over-aligned elements after %d bytes", n);
        S local;
        use(local);
        In in;
        use(in.q);
        auto heap = std::make_unique<S[]>(n + 1);
        use(heap[n]);
        xme::SPSCQueue<A> d(4);
        use(d);
        xme::SPSCQueue<Aligned<256>> e(8);
        use(e);
        ++mc::st.states;
    }
    REQUIRE(live.n == 0, "lifetime: %zu elements still alive", live.n);
}
static void setup() {
    one<Elem, 4>("elem");
    one<MoveOnly, 4>("moveonly");
    one<CopyOnly, 4>("copyonly");
    one<Thrower, 4>("thrower");
    one<Pinned, 4>("pinned");
    one<Aligned<64>, 4>("aligned64");
    one<Triv, 4>("trivial");
    one<Elem, 1>("elem.1");
    one<Elem, 2>("elem.2");
    one<Elem, 8>("elem.8");
    mc::add("faults.static.elem", [] { faults<Elem, void, 4>(); });
    mc::add("faults.dynamic.elem", [] { faults<Elem, tk::Alloc<Elem, false>, 4>(); });
    mc::add("faults.static.thrower", [] { faults<Thrower, void, 8>(); });
    mc::add("faults.dynamic.moveonly", [] { faults<MoveOnly, tk::Alloc<MoveOnly, false>, 4>(); });
    mc::add("faults.dynamic.pinned", [] { faults<Pinned, tk::Alloc<Pinned, false>, 2>(); });
    mc::add("placement", placement);
}
MC_MAIN(setup)
