#include "wm.hpp"
#include <ucontext.h>
namespace wm {
namespace {
constexpr int T = kThreads, L = 8;
constexpr std::size_t kArena = 1 << 14;
alignas(4096) unsigned char g_arena[kArena];
std::size_t g_arena_used;

struct View {
    std::uint16_t at[L]   = {};
    std::uint32_t clk[T]  = {};
    void join(const View& o) {
        for(int i = 0; i < L; ++i)
            at[i] = std::max(at[i], o.at[i]);
        for(int i = 0; i < T; ++i)
            clk[i] = std::max(clk[i], o.clk[i]);
    }
};
struct Msg {
    std::uint64_t val;
    View rel;
};
struct Loc {
    const void* p = nullptr;
    int size      = 0;
    int last_sc   = 0;
    int n         = 0;
    Msg msg[96];
};
struct Thread {
    View cur, rel_fence, acq_pend;
    std::uint64_t key = 0, progress = 0, loads = 0;
    unsigned steps = 0;
    bool done = true, started = false;
    void (*fn)() = nullptr;
    ucontext_t ctx;
};
Thread th[T];
Loc loc[L];
int nlocs, nthreads, cur;
bool weak, in_fiber, pruned;
mc::Choices* ch;
ucontext_t main_ctx;
unsigned char* stacks = nullptr;
constexpr std::size_t kStack = 1 << 17;
unsigned switches, bound;
std::size_t enter_prefix;
std::unordered_set<std::uint64_t> seen1;

// shadow: per byte and thread, epoch of the last plain read/write and atomic read/write
struct Region {
    const unsigned char* p;
    std::size_t n, base;
};
Region regions[8];
int nregions;
std::size_t shadow_n;
struct Shadow {
    std::uint32_t e[4][T];  // plain write, plain read, atomic write, atomic read
};
Shadow shadow[1 << 12];
std::uint64_t shadow_hash;

inline std::uint64_t m2(std::uint64_t a, std::uint64_t b) {
    std::uint64_t h = a * 0x9E3779B97F4A7C15ull + b * 0xC2B2AE3D27D4EB4Full + 0x165667B19E3779F9ull;
    h ^= h >> 29;
    h *= 0xBF58476D1CE4E5B9ull;
    return h ^ (h >> 32);
}
inline int find(const void* p) {
    auto q = static_cast<const unsigned char*>(p);
    for(int i = 0; i < nregions; ++i)
        if(q >= regions[i].p && q < regions[i].p + regions[i].n)
            return i;
    return -1;
}
const char* const what[] = {"write", "read", "atomic store", "atomic load"};
void access(const void* p, std::size_t n, int kind) {
    int r = find(p);
    if(r < 0)
        return;
    std::size_t off = static_cast<const unsigned char*>(p) - regions[r].p;
    if(off + n > regions[r].n)
        mc::fail("an access of %zu bytes at offset %zu leaves the object of %zu bytes", n, off, regions[r].n);
    const View& v = th[cur].cur;
    for(std::size_t i = 0; i < n; ++i) {
        Shadow& s = shadow[regions[r].base + off + i];
        for(int u = 0; u < T; ++u) {
            if(u == cur)
                continue;
            for(int k = 0; k < 4; ++k) {
                bool conflict = (kind == 0 || kind == 2 || k == 0 || k == 2) && (kind < 2 || k < 2);
                if(conflict && s.e[k][u] > v.clk[u])
                    mc::fail("data race: %s by thread %d at byte %zu of region %d does not happen after the %s by thread %d", what[kind], cur, off + i, r, what[k], u);
            }
        }
        std::uint32_t& e = s.e[kind][cur];
        std::uint32_t ne = v.clk[cur];
        if(e != ne) {
            std::uint64_t id = ((regions[r].base + off + i) * 4 + kind) * T + cur;
            shadow_hash ^= m2(id, e) ^ m2(id, ne);
            e = ne;
        }
    }
}
std::uint64_t state_hash() {
    std::uint64_t h = shadow_hash;
    for(int t = 0; t < nthreads; ++t) {
        Thread& x = th[t];
        h         = m2(h, x.done);
        if(x.done && t != 0)
            h = m2(h, x.progress);
        else {
            h = m2(h, x.key);
            h = m2(h, x.progress);
            h = m2(h, x.loads);
            h = m2(h, x.steps);
        }
        for(const View* v : {&x.cur, &x.rel_fence, &x.acq_pend}) {
            for(int i = 0; i < nlocs; ++i)
                h = m2(h, v->at[i]);
            for(int i = 0; i < T; ++i)
                h = m2(h, v->clk[i]);
        }
    }
    for(int l = 0; l < nlocs; ++l) {
        int lo = loc[l].n;
        for(int t = 0; t < nthreads; ++t)
            lo = std::min<int>(lo, th[t].done && t ? loc[l].n - 1 : th[t].cur.at[l]);
        h = m2(h, loc[l].n);
        h = m2(h, loc[l].last_sc);
        lo = std::max(0, std::min(lo, loc[l].n - 1));
        for(int i = lo; i < loc[l].n; ++i) {
            h = m2(h, loc[l].msg[i].val);
            for(int j = 0; j < nlocs; ++j)
                h = m2(h, loc[l].msg[i].rel.at[j]);
            for(int j = 0; j < T; ++j)
                h = m2(h, loc[l].msg[i].rel.clk[j]);
        }
    }
    for(int r = 0; r < nregions; ++r)
        for(std::size_t i = 0; i < regions[r].n; ++i)
            h = (h ^ regions[r].p[i]) * 0x100000001b3ull;
    return m2(h, bound == ~0u ? 0 : (switches * 8 + cur));
}
void to_main() {
    int t    = cur;
    in_fiber = false;
    swapcontext(&th[t].ctx, &main_ctx);
}
void go(int t) {  // from the fiber cur to the fiber t
    int from = cur;
    cur      = t;
    swapcontext(&th[from].ctx, &th[t].ctx);
}
int pick() {
    int e[T], n = 0;
    if(!th[cur].done && cur != 0)
        e[n++] = cur;
    if(n == 0 || switches < bound)
        for(int t = 1; t < nthreads; ++t)
            if(!th[t].done && t != cur)
                e[n++] = t;
    if(n == 0)
        return 0;
    int k = n == 1 ? 0 : (int)(*ch)(n);
    if(k > 0 && e[0] == cur)
        ++switches;
    return e[k];
}
bool prune_here() {
    if(mc::g_replaying || ch->taken.size() < enter_prefix)
        return false;
    if(seen1.insert(state_hash()).second) {
        ++n_states;
        return false;
    }
    ++n_pruned;
    pruned = true;
    return true;
}
void point() {
    if(!in_fiber)
        return;
    Thread& x = th[cur];
    if(++x.steps > 64)
        mc::fail("a call of thread %d does not return: it waits for the other thread", cur);
    if(prune_here())
        to_main();
    int t = pick();
    ++n_transitions;
    if(t != cur)
        go(t);
}
void entry() {
    int t = cur;
    th[t].fn();
    th[t].done = true;
    if(prune_here()) {
        to_main();
    }
    int n = pick();
    if(n == 0) {
        in_fiber = false;
        swapcontext(&th[t].ctx, &main_ctx);
    }
    else {
        cur = n;
        swapcontext(&th[t].ctx, &th[n].ctx);
    }
    mc::fail("harness: a finished thread runs");
}
template<typename V>
int location(const volatile V* p) {
    const void* q = const_cast<const V*>(p);
    for(int i = 0; i < nlocs; ++i)
        if(loc[i].p == q) {
            if(loc[i].size != sizeof(V))
                mc::fail("harness: mixed size atomics");
            return i;
        }
    if(nlocs == L)
        mc::fail("harness: too many atomic locations");
    Loc& l    = loc[nlocs];
    l.p       = q;
    l.size    = sizeof(V);
    l.n       = 1;
    l.last_sc = 0;
    l.msg[0]  = {};
    l.msg[0].val = (std::uint64_t)*const_cast<const V*>(p);
    return nlocs++;
}
constexpr bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
constexpr bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void read_from(int l, int i, int mo) {
    Thread& x   = th[cur];
    x.cur.at[l] = std::max<std::uint16_t>(x.cur.at[l], i);
    if(acq(mo))
        x.cur.join(loc[l].msg[i].rel);
    else
        x.acq_pend.join(loc[l].msg[i].rel);
    x.loads = m2(m2(x.loads, l + 1), loc[l].msg[i].val);
}
int choose_msg(int l, int mo) {
    Thread& x = th[cur];
    int lo = x.cur.at[l], hi = loc[l].n - 1;
    if(mo == __ATOMIC_SEQ_CST)
        lo = std::max(lo, loc[l].last_sc);
    if(!weak || !in_fiber)
        lo = hi;
    int k = hi == lo ? 0 : (int)(*ch)(hi - lo + 1);
    return hi - k;
}
template<typename V>
void write_msg(int l, V* p, V v, int mo, const View* sequence) {
    Thread& x = th[cur];
    Loc& o    = loc[l];
    if(o.n == 96)
        mc::fail("harness: too many stores");
    int i       = o.n++;
    x.cur.at[l] = i;
    Msg& m      = o.msg[i];
    m           = {};
    m.val       = (std::uint64_t)v;
    if(rel(mo))
        m.rel = x.cur;
    else
        m.rel = x.rel_fence;
    if(sequence)
        m.rel.join(*sequence);
    m.rel.at[l] = i;
    if(mo == __ATOMIC_SEQ_CST)
        o.last_sc = i;
    if(rel(mo))
        ++x.cur.clk[cur];
    *p      = v;
    x.loads = m2(m2(x.loads, 1000 + l), (std::uint64_t)v);
}
template<typename V>
V load(const volatile V* p, int mo) {
    if(find(const_cast<const V*>(p)) < 0)
        return *const_cast<const V*>(p);
    point();
    access(const_cast<const V*>(p), sizeof(V), 3);
    int l = location(p);
    int i = choose_msg(l, mo);
    read_from(l, i, mo);
    return (V)loc[l].msg[i].val;
}
template<typename V>
void store(volatile V* p, V v, int mo) {
    V* q = const_cast<V*>(p);
    if(find(q) < 0) {
        *q = v;
        return;
    }
    point();
    access(q, sizeof(V), 2);
    write_msg(location(p), q, v, mo, nullptr);
}
template<typename V, typename F>
V rmw(volatile V* p, F f, int mo) {
    V* q = const_cast<V*>(p);
    if(find(q) < 0) {
        V old = *q;
        *q    = f(old);
        return old;
    }
    point();
    access(q, sizeof(V), 2);
    int l    = location(p);
    int i    = loc[l].n - 1;
    V old    = (V)loc[l].msg[i].val;
    View seq = loc[l].msg[i].rel;
    read_from(l, i, mo);
    write_msg(l, q, (V)f(old), mo, &seq);
    return old;
}
template<typename V>
int cas(volatile V* p, V* expected, V desired, int mo, int fmo) {
    V* q = const_cast<V*>(p);
    if(find(q) < 0) {
        if(*q == *expected) {
            *q = desired;
            return 1;
        }
        *expected = *q;
        return 0;
    }
    point();
    access(q, sizeof(V), 2);
    int l = location(p);
    int i = choose_msg(l, fmo);
    if((V)loc[l].msg[i].val == *expected)
        i = loc[l].n - 1;
    if((V)loc[l].msg[i].val == *expected) {
        View seq = loc[l].msg[i].rel;
        read_from(l, i, mo);
        write_msg(l, q, desired, mo, &seq);
        return 1;
    }
    read_from(l, i, fmo);
    *expected = (V)loc[l].msg[i].val;
    return 0;
}
}  // namespace

std::uint64_t n_states, n_transitions, n_pruned;

void begin(mc::Choices& c, bool w, unsigned context_bound) {
    if(!stacks)
        stacks = static_cast<unsigned char*>(mmap(nullptr, kStack * T, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    ch = &c;
    weak = w;
    bound = context_bound;
    switches = 0;
    in_fiber = pruned = false;
    nlocs             = 0;
    nthreads          = 1;
    cur               = 0;
    nregions          = 0;
    shadow_n          = 0;
    shadow_hash       = 0;
    g_arena_used      = 0;
    enter_prefix      = c.prefix.size();
    for(auto& x : th) {
        x.cur = x.rel_fence = x.acq_pend = View{};
        x.key = x.progress = x.loads = 0;
        x.steps                      = 0;
        x.done                       = true;
    }
    th[0].cur.clk[0] = 1;
}
void track(const void* p, std::size_t n) {
    if(nregions == 8 || shadow_n + n > sizeof(shadow) / sizeof(shadow[0]))
        mc::fail("harness: too much tracked memory");
    regions[nregions++] = {static_cast<const unsigned char*>(p), n, shadow_n};
    std::memset(shadow + shadow_n, 0, n * sizeof(Shadow));
    shadow_n += n;
}
void* arena(std::size_t n, std::size_t align) {
    g_arena_used = (g_arena_used + align - 1) / align * align;
    if(g_arena_used + n > kArena)
        mc::fail("harness: arena full");
    void* p = g_arena + g_arena_used;
    g_arena_used += n;
    std::memset(p, 0xCD, n);
    track(p, n);
    return p;
}
bool owns(const void* p) {
    return find(p) >= 0;
}
void spawn(void (*fn)()) {
    int t       = nthreads++;
    Thread& x   = th[t];
    x.fn        = fn;
    x.done      = false;
    x.cur       = th[0].cur;
    x.cur.clk[t] = 1;
    getcontext(&x.ctx);
    x.ctx.uc_stack.ss_sp   = stacks + kStack * t;
    x.ctx.uc_stack.ss_size = kStack;
    x.ctx.uc_link          = nullptr;
    makecontext(&x.ctx, entry, 0);
}
bool run() {
    ++th[0].cur.clk[0];
    int t    = pick();
    cur      = t;
    in_fiber = true;
    swapcontext(&main_ctx, &th[t].ctx);
    in_fiber = false;
    cur      = 0;
    if(pruned)
        return false;
    for(int u = 1; u < nthreads; ++u)
        th[0].cur.join(th[u].cur);
    return true;
}
void call(std::uint64_t key, std::uint64_t progress) {
    th[cur].key      = key;
    th[cur].progress = progress;
    th[cur].loads    = 0;
    th[cur].steps    = 0;
}
std::uint32_t choose(std::uint32_t n) {
    return (*ch)(n);
}
std::uint32_t stamp() {
    return th[cur].cur.clk[cur];
}
bool knows(int t, std::uint32_t s) {
    return th[cur].cur.clk[t] >= s;
}
int self() {
    return cur;
}
}  // namespace wm

using namespace wm;
using a8 = std::uint8_t; using a16 = std::uint16_t; using a32 = std::uint32_t; using a64 = std::uint64_t;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, 0); }
void __tsan_vptr_read(void** p) { access(p, 8, 1); }
#define RW(N)                                                     \
    void __tsan_read##N(void* p) { access(p, N, 1); }             \
    void __tsan_write##N(void* p) { access(p, N, 0); }            \
    void __tsan_unaligned_read##N(void* p) { access(p, N, 1); }   \
    void __tsan_unaligned_write##N(void* p) { access(p, N, 0); }  \
    void __tsan_volatile_read##N(void* p) { access(p, N, 1); }    \
    void __tsan_volatile_write##N(void* p) { access(p, N, 0); }   \
    void __tsan_read_write##N(void* p) { access(p, N, 1); access(p, N, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, 1); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, 0); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { access(s, n, 1); access(d, n, 0); return __builtin_memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { access(d, n, 0); return __builtin_memset(d, c, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { access(s, n, 1); access(d, n, 0); return __builtin_memmove(d, s, n); }
#define AT(B)                                                                                                                   \
    a##B __tsan_atomic##B##_load(const volatile a##B* p, int mo) { return load(p, mo); }                                        \
    void __tsan_atomic##B##_store(volatile a##B* p, a##B v, int mo) { store(p, v, mo); }                                        \
    a##B __tsan_atomic##B##_exchange(volatile a##B* p, a##B v, int mo) { return rmw(p, [=](a##B) { return v; }, mo); }          \
    a##B __tsan_atomic##B##_fetch_add(volatile a##B* p, a##B v, int mo) { return rmw(p, [=](a##B o) { return (a##B)(o + v); }, mo); } \
    a##B __tsan_atomic##B##_fetch_sub(volatile a##B* p, a##B v, int mo) { return rmw(p, [=](a##B o) { return (a##B)(o - v); }, mo); } \
    a##B __tsan_atomic##B##_fetch_and(volatile a##B* p, a##B v, int mo) { return rmw(p, [=](a##B o) { return (a##B)(o & v); }, mo); } \
    a##B __tsan_atomic##B##_fetch_or(volatile a##B* p, a##B v, int mo) { return rmw(p, [=](a##B o) { return (a##B)(o | v); }, mo); }  \
    a##B __tsan_atomic##B##_fetch_xor(volatile a##B* p, a##B v, int mo) { return rmw(p, [=](a##B o) { return (a##B)(o ^ v); }, mo); } \
    a##B __tsan_atomic##B##_fetch_nand(volatile a##B* p, a##B v, int mo) { return rmw(p, [=](a##B o) { return (a##B)~(o & v); }, mo); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile a##B* p, a##B* e, a##B d, int mo, int f) { return cas(p, e, d, mo, f); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile a##B* p, a##B* e, a##B d, int mo, int f) { return cas(p, e, d, mo, f); }   \
    a##B __tsan_atomic##B##_compare_exchange_val(volatile a##B* p, a##B e, a##B d, int mo, int f) { cas(p, &e, d, mo, f); return e; }
AT(8) AT(16) AT(32) AT(64)
void __tsan_atomic_thread_fence(int mo) {
    if(in_fiber)
        point();
    Thread& x = th[cur];
    if(acq(mo))
        x.cur.join(x.acq_pend);
    if(rel(mo)) {
        x.rel_fence = x.cur;
        ++x.cur.clk[cur];
    }
}
void __tsan_atomic_signal_fence(int) {}
}
