// Payloads and allocators that watch lifetimes.
#pragma once
#include "mc.hpp"
#include <memory>
#include <new>
#include <type_traits>
#include <utility>

namespace tk {
struct Fault : std::bad_alloc {
    int dummy = 0;
};
struct Counters {
    std::uint64_t ctor = 0, copy = 0, move = 0, copy_assign = 0, move_assign = 0, dtor = 0, alloc = 0, dealloc = 0;
    std::uint64_t copies() const { return copy + copy_assign; }
    std::uint64_t touched() const { return ctor + copy + move + copy_assign + move_assign; }
};
inline Counters cnt;
inline long fault_at    = -1;  // throw at the fault_at-th fault point from now; -1 never
inline long fault_points = 0;  // fault points passed since reset
inline bool fault_fired  = false;
inline char fault_kind   = 0;  // 'c' copy, 'm' move, 'v' value construction, 'a' allocation, 'C' copy assignment, 'M' move assignment
inline void fault_reset(long at) {
    fault_at     = at;
    fault_points = 0;
    fault_fired  = false;
    fault_kind   = 0;
}
inline bool fault_here(char kind) {
    if(fault_points++ == fault_at) {
        fault_fired = true;
        fault_kind  = kind;
        fault_at    = -1;
        return true;
    }
    return false;
}

// ---- registry of live elements and blocks ------------------------------------------------------
struct Slots {  // open addressing set of addresses
    std::vector<const void*> t = std::vector<const void*>(1024, nullptr);
    std::size_t n              = 0;
    static std::size_t h(const void* p) { return (reinterpret_cast<std::uintptr_t>(p) >> 3) * 0x9E3779B97F4A7C15ull >> 20; }
    bool has(const void* p) const {
        for(std::size_t i = h(p) & (t.size() - 1);; i = (i + 1) & (t.size() - 1)) {
            if(t[i] == p)
                return true;
            if(!t[i])
                return false;
        }
    }
    void put(const void* p) {
        if((n + 1) * 2 > t.size()) {
            auto old = std::move(t);
            t.assign(old.size() * 2, nullptr);
            n = 0;
            for(auto q : old)
                if(q)
                    put(q);
        }
        std::size_t i = h(p) & (t.size() - 1);
        while(t[i])
            i = (i + 1) & (t.size() - 1);
        t[i] = p;
        ++n;
    }
    void drop(const void* p) {
        std::size_t m = t.size() - 1, i = h(p) & m;
        while(t[i] != p)
            i = (i + 1) & m;
        t[i] = nullptr;
        --n;
        for(std::size_t j = (i + 1) & m; t[j]; j = (j + 1) & m) {
            const void* q = t[j];
            t[j]          = nullptr;
            --n;
            put(q);
        }
    }
};
inline Slots live;
struct Block {
    const char* p;
    std::size_t n, bytes;
    int id;
};
inline std::vector<Block> blocks;
inline const Block* block_at(const void* p) {
    for(auto& b : blocks)
        if(b.p == p)
            return &b;
    return nullptr;
}
inline const Block* block_of(const void* p) {
    for(auto& b : blocks)
        if((const char*)p >= b.p && (const char*)p < b.p + b.bytes)
            return &b;
    return nullptr;
}
inline std::size_t live_in(const void* p, std::size_t bytes, std::size_t step) {
    std::size_t k = 0;
    for(std::size_t o = 0; o < bytes; o += step)
        k += live.has((const char*)p + o);
    return k;
}
inline void reset_registry() {
    if(live.n)
        live = Slots{};
    blocks.clear();
    cnt = {};
    fault_reset(-1);
}

enum : unsigned { kCopy = 1, kMove = 2, kMoveThrows = 4 };
inline constexpr int kMoved = -1;

//! An element that knows where it lives. v is its identity, kMoved once moved from.
template<unsigned F = kCopy | kMove>
struct Tracked {
    int v;
    const void* self;
    void born() {
        if(live.has(this))
            mc::fail("lifetime: an element is constructed where one is alive");
        live.put(this);
        self = this;
    }
    void alive(const char* what) const {
        if(!live.has(this))
            mc::fail("lifetime: %s an element that is not alive", what);
        if(self != this)
            mc::fail("lifetime: %s an element that was moved by copying its bytes", what);
    }
    Tracked(int x) {
        if(fault_here('v'))
            throw Fault{};
        v = x;
        born();
        ++cnt.ctor;
    }
    Tracked(int x, int y) : Tracked(x + y) {}
    Tracked(const Tracked& o)
        requires((F & kCopy) != 0)
    {
        o.alive("copies from");
        if(fault_here('c'))
            throw Fault{};
        v = o.v;
        born();
        ++cnt.copy;
    }
    Tracked(Tracked&& o) noexcept((F & kMoveThrows) == 0)
        requires((F & kMove) != 0)
    {
        o.alive("moves from");
        if constexpr((F & kMoveThrows) != 0)
            if(fault_here('m'))
                throw Fault{};
        v = o.v;
        born();
        if(&o != this)
            o.v = kMoved;
        ++cnt.move;
    }
    Tracked& operator=(const Tracked& o)
        requires((F & kCopy) != 0)
    {
        alive("assigns to");
        o.alive("assigns from");
        if(fault_here('C'))
            throw Fault{};
        v = o.v;
        ++cnt.copy_assign;
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept((F & kMoveThrows) == 0)
        requires((F & kMove) != 0)
    {
        alive("assigns to");
        o.alive("assigns from");
        if constexpr((F & kMoveThrows) != 0)
            if(fault_here('M'))
                throw Fault{};
        if(&o != this) {
            v   = o.v;
            o.v = kMoved;
        }
        ++cnt.move_assign;
        return *this;
    }
    ~Tracked() {
        alive("destroys");
        live.drop(this);
        self = nullptr;
        v    = -77;
        ++cnt.dtor;
    }
    int id() const {
        alive("reads");
        return v;
    }
};
using Elem     = Tracked<kCopy | kMove>;
using MoveOnly = Tracked<kMove>;
using CopyOnly = Tracked<kCopy>;
using Thrower  = Tracked<kCopy | kMove | kMoveThrows>;

//! A value that shows when it was moved from, without watching its lifetime.
struct Val {
    int v = 0;
    Val() = default;
    Val(int x) noexcept : v(x) {}
    Val(int x, int y) noexcept : v(x + y) {}
    Val(const Val& o) noexcept : v(o.v) { ++cnt.copy; }
    Val(Val&& o) noexcept : v(o.v) {
        if(&o != this)
            o.v = kMoved;
        ++cnt.move;
    }
    Val& operator=(const Val& o) noexcept {
        v = o.v;
        ++cnt.copy_assign;
        return *this;
    }
    Val& operator=(Val&& o) noexcept {
        if(&o != this) {
            v   = o.v;
            o.v = kMoved;
        }
        ++cnt.move_assign;
        return *this;
    }
    ~Val() {}
    int id() const { return v; }
};
template<typename T>
inline constexpr bool marks_moved = requires { T::kMarksMoved; } || std::is_same_v<T, Val> || std::is_same_v<T, Elem> || std::is_same_v<T, MoveOnly> || std::is_same_v<T, Thrower>;
inline int id(int x) { return x; }
inline int id(long x) { return (int)x; }
template<typename T>
int id(const T& t)
    requires requires { t.id(); }
{
    return t.id();
}

//! Counts and checks. id distinguishes allocators that are not equal. Moves with swap if Prop.
template<typename T, bool Prop = true>
struct Alloc {
    using value_type                             = T;
    using size_type                              = std::size_t;
    using difference_type                        = std::ptrdiff_t;
    using propagate_on_container_swap            = std::bool_constant<Prop>;
    using propagate_on_container_move_assignment = std::bool_constant<Prop>;
    using propagate_on_container_copy_assignment = std::bool_constant<Prop>;
    using is_always_equal                        = std::bool_constant<!Prop>;
    template<typename U>
    struct rebind {
        using other = Alloc<U, Prop>;
    };
    int aid = 0;
    Alloc() noexcept = default;
    explicit Alloc(int i) noexcept : aid(Prop ? i : 0) {}
    template<typename U>
    Alloc(const Alloc<U, Prop>& o) noexcept : aid(o.aid) {}
    T* allocate(std::size_t n) {
        if(fault_here('a'))
            throw Fault{};
        ++cnt.alloc;
        if(n > (std::size_t)1 << 24)
            mc::fail("allocation of %zu elements", n);
        std::size_t bytes = n * sizeof(T) ? n * sizeof(T) : 1;
        void* p           = alignof(T) > 16 ? std::aligned_alloc(alignof(T), (bytes + alignof(T) - 1) / alignof(T) * alignof(T))
                                            : std::malloc(bytes);
        std::memset(p, 0xCD, bytes);
        blocks.push_back({(const char*)p, n, bytes, aid});
        return static_cast<T*>(p);
    }
    void deallocate(T* p, std::size_t n) noexcept {
        ++cnt.dealloc;
        for(std::size_t i = 0; i < blocks.size(); ++i)
            if(blocks[i].p == (const char*)p) {
                if(blocks[i].n != n)
                    mc::fail("allocation: %zu elements given back of a block of %zu", n, blocks[i].n);
                if(blocks[i].id != aid)
                    mc::fail("allocation: a block of allocator %d given back to allocator %d", blocks[i].id, aid);
                if(std::size_t k = live_in(p, n * sizeof(T), alignof(T) < 8 ? 4 : 8))
                    mc::fail("lifetime: memory given back with %zu elements alive in it", k);
                std::memset((void*)p, 0xDD, blocks[i].bytes);
                blocks.erase(blocks.begin() + i);
                std::free(p);
                return;
            }
        mc::fail("allocation: memory given back that is not allocated");
    }
    friend bool operator==(const Alloc& a, const Alloc& b) noexcept { return a.aid == b.aid; }
};
//! nothing may be left once everything is gone
inline void expect_clean(const char* when) {
    if(live.n)
        mc::fail("lifetime: %zu elements still alive %s", live.n, when);
    if(!blocks.empty())
        mc::fail("allocation: %zu blocks still allocated %s", blocks.size(), when);
}
}  // namespace tk
