// SPSCQueue used by one thread, in lockstep with a plain sequence.
#pragma once
#include "track.hpp"
#include <deque>
#include <xme/container/spsc_queue.hpp>
namespace qs {
using u64 = std::uint64_t;
using namespace tk;
//! neither copied nor moved
struct Pinned {
    Elem e;
    Pinned(int x) : e(x) {}
    Pinned(int x, int y) : e(x, y) {}
    Pinned(const Pinned&)            = delete;
    Pinned& operator=(const Pinned&) = delete;
    int id() const { return e.id(); }
};
//! starts at a multiple of A
template<std::size_t A>
struct alignas(A) Aligned {
    Elem e;
    void where() const {
        if(reinterpret_cast<std::uintptr_t>(this) % A)
            mc::fail("an element that needs an alignment of %zu is at %p", A, (const void*)this);
    }
    Aligned(int x) : e(x) { where(); }
    Aligned(int x, int y) : e(x, y) { where(); }
    Aligned(const Aligned& o) : e(o.e) { where(); }
    Aligned(Aligned&& o) noexcept : e(std::move(o.e)) { where(); }
    int id() const { return e.id(); }
};
//! trivially destructible, over-aligned, not default constructible
struct alignas(32) Triv {
    int v, w;
    Triv(int x) : v(x), w(~x) {
        if(reinterpret_cast<std::uintptr_t>(this) % 32)
            mc::fail("an element that needs an alignment of 32 is at %p", (const void*)this);
    }
    Triv(int x, int y) : Triv(x + y) {}
    int id() const {
        if(w != ~v)
            mc::fail("an element is read that is not whole");
        return v;
    }
};
enum Kind : std::uint8_t { PushL, PushR, PushConv, Emp1, Emp2, Pop, Consume, ConsumeMove, PopBad, ConsumeBad, Kinds };
constexpr const char* names[] = {"push(const&)", "push(&&)", "push(int)", "emplace(a)", "emplace(a, b)", "pop", "consume", "consume and move out", "pop of an empty queue", "consume of an empty queue"};

//! Alloc void: static
template<typename T, typename Al, u64 N>
struct Sys {
    static constexpr bool dynamic = !std::is_void_v<Al>;
    static constexpr bool watched = !std::is_trivially_destructible_v<T>;
    using Policy                  = std::conditional_t<dynamic, Al, xme::Capacity<N>>;
    using Q                       = xme::SPSCQueue<T, Policy>;
    alignas(Q) unsigned char mem[sizeof(Q)];
    Q* q;
    std::deque<int> ref;
    int next     = 1;
    u64 pushes   = 0;
    bool life, over = false;

    explicit Sys(bool life_ = true) : life(life_) {
        reset_registry();
        std::memset(mem, 0xAB, sizeof mem);
        if constexpr(dynamic)
            q = ::new(mem) Q(N);
        else
            q = ::new(mem) Q();
        if(live.n)
            mc::fail("lifetime: an empty queue holds %zu elements", live.n);
        check();
    }
    ~Sys() { finish(); }
    Q& Q_() { return *q; }
    static constexpr std::uint32_t ops() { return Kinds; }
    void check() {
        const Q& c = *q;
        REQUIRE(c.read_available() == ref.size(), "read_available is %zu with %zu elements", (size_t)c.read_available(), ref.size());
        REQUIRE(c.write_available() == N - 1 - ref.size(), "write_available is %zu with %zu elements and a capacity of %zu", (size_t)c.write_available(), ref.size(), (size_t)N);
        if(life && watched)
            REQUIRE(live.n == ref.size(), "lifetime: %zu elements are alive in a queue of %zu", live.n, ref.size());
    }
    //! the push of op, whose argument must survive a failure; true if the kind applies to T
    bool push(int k) {
        const bool room = ref.size() < N - 1;
        const int v     = next++;
        bool ok         = false;
        Counters d;
        auto call = [&](auto fn) {
            Counters before = cnt;
            ok              = fn();
            d               = {cnt.ctor - before.ctor, cnt.copy - before.copy, cnt.move - before.move, cnt.copy_assign - before.copy_assign, cnt.move_assign - before.move_assign, cnt.dtor - before.dtor};
        };
        if(k == PushL) {
            if constexpr(std::is_copy_constructible_v<T>) {
                const T a(v);
                call([&] { return q->push(a); });
                REQUIRE(a.id() == v, "push(const&) changed its argument");
                if(life && watched)
                    REQUIRE(d.copies() == (ok ? 1 : 0) && !d.move && !d.ctor && !d.dtor, "push(const&) -> %d copied %zu, moved %zu, made %zu and destroyed %zu elements", ok, (size_t)d.copies(), (size_t)d.move, (size_t)d.ctor, (size_t)d.dtor);
            }
            else
                return false;
        }
        else if(k == PushR) {
            if constexpr(std::is_move_constructible_v<T>) {
                T a(v);
                call([&] { return q->push(std::move(a)); });
                if(!ok)
                    REQUIRE(a.id() == v, "a push that failed moved from its argument");
                if(life && watched && !std::is_same_v<T, CopyOnly>)
                    REQUIRE(d.copies() == 0 && d.move == (ok ? 1 : 0) && !d.ctor && !d.dtor, "push(&&) -> %d copied %zu, moved %zu, made %zu and destroyed %zu elements", ok, (size_t)d.copies(), (size_t)d.move, (size_t)d.ctor, (size_t)d.dtor);
            }
            else
                return false;
        }
        else {
            if(k == PushConv) {
                if constexpr(std::is_convertible_v<int, T>)
                    call([&] { return q->push(v); });
                else
                    return false;
            }
            else if(k == Emp1)
                call([&] { return q->emplace(v); });
            else
                call([&] { return q->emplace(v - 1000, 1000); });
            if(life && watched)
                REQUIRE(d.touched() == (ok ? 1 : 0) && d.ctor == (ok ? 1 : 0), "%s -> %d made %zu, copied %zu and moved %zu elements", names[k], ok, (size_t)d.ctor, (size_t)d.copies(), (size_t)d.move);
        }
        OP("%s %d -> %s", names[k], v, ok ? "true" : "false");
        REQUIRE(ok == room, "%s %s with %zu elements in a queue for %zu", names[k], ok ? "succeeded" : "failed", ref.size(), (size_t)N - 1);
        if(ok) {
            ref.push_back(v);
            ++pushes;
        }
        return true;
    }
    bool take(int k) {
        if(ref.empty())
            return false;
        const auto before = cnt;
        if(k == Pop)
            q->pop();
        else {
            int calls = 0, got = 0;
            std::size_t alive = 0;
            q->consume([&](auto&& x) {
                static_assert(std::is_same_v<decltype(x), T&&>, "consume does not hand over an rvalue");
                ++calls;
                got   = x.id();
                alive = live.n;
                if constexpr(std::is_move_constructible_v<T>)
                    if(k == ConsumeMove) {
                        T mine(std::forward<decltype(x)>(x));
                        got = mine.id();
                    }
            });
            REQUIRE(calls == 1, "consume called its function %d times", calls);
            REQUIRE(got == ref.front(), "consume handed over %d instead of %d", got, ref.front());
            if(life && watched)
                REQUIRE(alive == ref.size(), "lifetime: %zu elements are alive during consume instead of %zu", alive, ref.size());
        }
        OP("%s -> %d", names[k], ref.front());
        if(life && watched)
            REQUIRE(cnt.copies() == before.copies() + (std::is_same_v<T, CopyOnly> && k == ConsumeMove), "lifetime: %s copied an element", names[k]);
        ref.pop_front();
        return true;
    }
    bool apply(std::uint32_t k) {
        if(over)
            return false;
        if(k <= Emp2) {
            if(!push(k))
                return false;
        }
        else if(k <= ConsumeMove) {
            if(!take(k))
                return false;
        }
        else {
#ifdef NDEBUG
            return false;
#else
            if(!ref.empty())
                return false;
            OP("%s", names[k]);
            REQUIRE(mc::rejects([&] {
                if(k == PopBad)
                    q->pop();
                else
                    q->consume([](auto&&) {});
            }), "%s was not rejected", names[k]);
#endif
        }
        check();
        return true;
    }
    std::string key() const { return std::to_string(pushes % N) + "," + std::to_string(ref.size()); }
    void finish() {
        if(over)
            return;
        over = true;
        const auto d0 = cnt.dtor;
        q->~Q();
        OP("destroy the queue with %zu elements", ref.size());
        if(watched && life)
            REQUIRE(cnt.dtor - d0 == ref.size(), "lifetime: destroying a queue of %zu destroyed %zu elements", ref.size(), (size_t)(cnt.dtor - d0));
        if(life)
            expect_clean("after the queue is destroyed");
        reset_registry();
    }
};
}  // namespace qs
