// C39: operations keep to their own object.  Every operation of every state runs with the memory of what it reads only made
// read-only, the memory of every other object made inaccessible, and the static data of the program made read-only: what is
// left writable is the stack, what the operation allocates and, if it is not const, its object.  Operations of different
// threads that keep to that are independent, so that one schedule stands for all.
#include "mc.hpp"
#include <algorithm>
#include <array>
#include <memory>
#include <new>
#include <numeric>
#include <string>
#include <tuple>
#include <vector>
#include <xme/container/aligned_data.hpp>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/icontainer.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/container/pair.hpp>
#include <xme/container/spsc_queue.hpp>
#include <xme/container/tuple.hpp>
#include <xme/core/algorithm/find.hpp>
#include <xme/core/algorithm/reverse.hpp>
#include <xme/core/functional/bind.hpp>
#include <xme/core/functional/delegate.hpp>
#include <xme/core/functional/scoped_delegate.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>
#include <xme/core/utility/forward_like.hpp>
#include <xme/core/utility/to_unsigned.hpp>
#include <xme/math/math.hpp>
#include <xme/math/glsl_mapping.hpp>
#include <xme/ranges/destroy.hpp>
#include <xme/ranges/uninitialized.hpp>

// ---- memory ----------------------------------------------------------------------------------------
enum Where { ObjA, ObjB, HeapA, HeapB, Scratch, Areas };
constexpr std::size_t AreaSize = 1 << 16;
struct Ctl {
    char* base[Areas];
    std::size_t used[Areas];
    int heap;    // where operator new takes memory from
    bool on;     // if so
    bool armed;  // protections hold
    long result[3];
    int variant;  // which values objects are made of
    char* data[2];
};
static Ctl* ctl;
extern char __data_start, _end;

static void* take(int area, std::size_t n, std::size_t align) {
    std::size_t& u = ctl->used[area];
    u              = (u + align - 1) / align * align;
    void* p        = ctl->base[area] + u;
    u += n ? n : 1;
    if(u > AreaSize)
        _exit(4);
    return p;
}
static bool ours(void* p) {
    return ctl && p >= ctl->base[0] && p < ctl->base[0] + AreaSize * Areas;
}
void* operator new(std::size_t n) {
    if(ctl && ctl->on)
        return take(ctl->heap, n, 16);
    void* p = std::malloc(n ? n : 1);
    if(!p)
        throw std::bad_alloc();
    return p;
}
void* operator new(std::size_t n, std::align_val_t a) {
    if(ctl && ctl->on)
        return take(ctl->heap, n, std::size_t(a));
    return std::aligned_alloc(std::size_t(a), (n + std::size_t(a) - 1) / std::size_t(a) * std::size_t(a));
}
void operator delete(void* p) noexcept {
    if(!ours(p))
        std::free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { operator delete(p); }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }

static void protect(int area, int prot) {
    if(mprotect(ctl->base[area], AreaSize, prot))
        _exit(5);
}
static void statics(int prot) {
    Ctl* c = ctl;
    mprotect(c->data[0], c->data[1] - c->data[0], prot);
}
static void disarm() {
    statics(PROT_READ | PROT_WRITE);
    if(!ctl->armed)
        return;
    ctl->armed = false;
    for(int a = 0; a < Areas; ++a)
        protect(a, PROT_READ | PROT_WRITE);
    ctl->on = false;
}
static void arm(bool writes) {
    protect(ObjA, writes ? PROT_READ | PROT_WRITE : PROT_READ);
    protect(HeapA, writes ? PROT_READ | PROT_WRITE : PROT_READ);
    protect(ObjB, PROT_NONE);
    protect(HeapB, PROT_NONE);
    ctl->heap  = writes ? HeapA : Scratch;
    ctl->on    = true;
    ctl->armed = true;
    statics(PROT_READ);
}
static void on_fault(int sig, siginfo_t* info, void*) {
    Ctl* c           = ctl;
    const bool armed = c->armed;
    disarm();
    char* p = static_cast<char*>(info->si_addr);
    if(!armed)
        mc::fail("the operation ends with signal %d", sig);
    if(p >= c->data[0] && p < c->data[1])
        mc::fail("the operation writes static data of the program, which every thread shares");
    if(p >= c->base[0] && p < c->base[0] + AreaSize * Areas) {
        static const char* name[] = {"the object, which it may only read", "another object", "the memory the object owns, which it may only read", "memory of another object", "scratch memory"};
        mc::fail("the operation accesses %s", name[(p - c->base[0]) / AreaSize]);
    }
    mc::fail("the operation ends with signal %d", sig);
}
static void on_time(int s) {
    const bool armed = ctl->armed;
    if(armed)
        statics(PROT_READ | PROT_WRITE);
    mc::on_timer(s);
    if(armed)
        statics(PROT_READ);
}
static void prepare() {
    const std::size_t page = 4096;
    Ctl* c = static_cast<Ctl*>(mmap(nullptr, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    char* m = static_cast<char*>(mmap(nullptr, AreaSize * Areas, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    std::memset(static_cast<void*>(c), 0, sizeof *c);
    for(int a = 0; a < Areas; ++a)
        c->base[a] = m + a * AreaSize;
    c->data[0] = reinterpret_cast<char*>(reinterpret_cast<std::uintptr_t>(&__data_start) / page * page);
    c->data[1] = reinterpret_cast<char*>((reinterpret_cast<std::uintptr_t>(&_end) + page - 1) / page * page);
    ctl        = c;
    stack_t alt{};
    alt.ss_sp   = mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    alt.ss_size = 1 << 16;
    sigaltstack(&alt, nullptr);
    struct sigaction sa {};
    sa.sa_sigaction = on_fault;
    sa.sa_flags     = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    sa.sa_flags   = SA_ONSTACK;
    sa.sa_handler = on_time;
    sigaction(SIGVTALRM, &sa, nullptr);
}
static void reset() {
    for(auto& u : ctl->used)
        u = 0;
}
//! an object that is made by f in an area
template<typename F>
static auto* in(int area, F f) {
    using T = decltype(f());
    return ::new(take(area, sizeof(T), std::max<std::size_t>(alignof(T), 16))) T(f());
}

// ---- elements and results -----------------------------------------------------------------------------
struct Own {
    int* p;
    Own(int v = 0) : p(new int(v)) {}
    Own(const Own& o) : p(new int(*o.p)) {}
    Own(Own&& o) noexcept : p(o.p) { o.p = nullptr; }
    Own& operator=(const Own& o) {
        if(this != &o) {
            int* q = new int(*o.p);
            delete p;
            p = q;
        }
        return *this;
    }
    Own& operator=(Own&& o) noexcept {
        std::swap(p, o.p);
        return *this;
    }
    ~Own() { delete p; }
    int get() const { return p ? *p : -1; }
    bool operator==(const Own& o) const { return get() == o.get(); }
    auto operator<=>(const Own& o) const { return get() <=> o.get(); }
};
static long val(int x) { return x; }
static long val(const Own& x) { return x.get(); }
static long sum(long a, long b) { return a * 31 + b; }
template<typename R>
static long all(const R& r) {
    long s = 7;
    for(auto i = r.begin(); i != r.end(); ++i)
        s = sum(s, val(*i));
    return s;
}

// ---- running --------------------------------------------------------------------------------------------
enum Relation { Alone, CopyOfOther, CopiedByOther, MovedFromOther, MovedToOther, AssignedFromOther, AssignedToOther, MoveAssigned, Swapped, Relations };
static const char* relation_name[] = {"alone", "copied from another", "copied to another", "moved from another", "moved to another and made anew", "assigned from another", "assigned to another", "move-assigned from another", "swapped with another"};

//! an object A as make() makes it, another object B with which it had to do, and its own copy of everything
template<typename T, typename Make>
static T* related(int relation, Make make) {
    constexpr bool copies = std::is_constructible_v<T, const T&>, moves = std::is_constructible_v<T, T&&>;
    constexpr bool assigns = std::is_copy_assignable_v<T>, massigns = std::is_move_assignable_v<T>;
    T *a = nullptr, *b = nullptr;
    ctl->on    = true;
    auto at_a  = [&](auto f) { ctl->heap = HeapA; return in(ObjA, f); };
    auto at_b  = [&](auto f) { ctl->heap = HeapB; return in(ObjB, f); };
    switch(relation) {
    case Alone: b = at_b(make), a = at_a(make); break;
    case CopyOfOther:
        if constexpr(copies)
            b = at_b(make), a = at_a([&] { return T(const_cast<const T&>(*b)); });
        break;
    case CopiedByOther:
        if constexpr(copies)
            a = at_a(make), b = at_b([&] { return T(const_cast<const T&>(*a)); });
        break;
    case MovedFromOther:  // what B owned is A's
        if constexpr(moves) {
            ctl->heap = HeapA;
            b         = in(ObjB, make);
            a         = at_a([&] { return T(std::move(*b)); });
        }
        break;
    case MovedToOther:
        if constexpr(moves && massigns) {
            ctl->heap = HeapB;
            a         = in(ObjA, make);
            b         = at_b([&] { return T(std::move(*a)); });
            ctl->heap = HeapA;
            *a        = make();
        }
        break;
    case AssignedFromOther:
        if constexpr(assigns)
            b = at_b(make), a = at_a(make), ctl->heap = HeapA, *a = const_cast<const T&>(*b);
        break;
    case AssignedToOther:
        if constexpr(assigns)
            a = at_a(make), b = at_b(make), ctl->heap = HeapB, *b = const_cast<const T&>(*a);
        break;
    case MoveAssigned:  // what is left of A's goes with B
        if constexpr(massigns) {
            ctl->heap = HeapA;
            b         = in(ObjB, make);
            ctl->heap = HeapA;
            a         = in(ObjA, make);
            *a        = std::move(*b);
        }
        break;
    case Swapped:
        if constexpr(std::is_swappable_v<T>) {
            ctl->heap = HeapB;
            a         = in(ObjA, make);
            ctl->heap = HeapA;
            b         = in(ObjB, make);
            ctl->heap = HeapA;
            using std::swap;
            swap(*a, *b);
        }
        break;
    }
    ctl->on = false;
    return a;
}
//! op on an object made by make, whatever its relation to another; the first time unguarded, for what is initialised on first use
template<bool writes, typename Make, typename Op>
static void guarded(const char* what, const std::string& state, const char* name, Make make, Op op, int relations = Relations) {
    using T = decltype(make());
    for(int relation = 0; relation < relations; ++relation) {
        mc::begin_case();
        mc::log("%s%s, %s: %s", what, state.c_str(), relation_name[relation], name);
        // first with other values, for what is initialised on first use; then guarded; then for comparison
        for(int run = 0; run < 3; ++run) {
            reset();
            ctl->variant = run == 0 ? 0 : 1;
            T* a         = related<T>(relation, make);
            if(!a)
                break;
            if(run == 1)
                arm(writes);
            else
                ctl->on = true, ctl->heap = writes ? HeapA : Scratch;
            if constexpr(writes)
                ctl->result[run] = op(*a);
            else
                ctl->result[run] = op(const_cast<const T&>(*a));
            disarm();
            ctl->on = false;
            if(run == 2) {
                REQUIRE(ctl->result[1] == ctl->result[2], "the operation gives %ld the first time and %ld the next", ctl->result[1], ctl->result[2]);
                mc::evaluated_once();
            }
        }
    }
}
#define READ(what, state, make, ...) guarded<false>(what, state, #__VA_ARGS__, make, [](const auto& a) -> long { return __VA_ARGS__; })
#define WRITE(what, state, make, ...) guarded<true>(what, state, #__VA_ARGS__, make, [](auto& a) -> long { __VA_ARGS__; return 0; })

static int most() { return mc::thorough ? 8 : 5; }
template<typename F>
static void sizes(F f) {
    for(int n = 0; n <= most(); ++n)
        f(n);
}

// ---- containers -------------------------------------------------------------------------------------------
template<typename P>
static long some_data(P p, std::size_t n) {
    long s = 1;
    for(std::size_t i = 0; i < n; ++i)
        s = sum(s, val(p[i]));
    return s;
}
template<typename T, typename X, typename M>
static void common_reads(const char* w, const std::string& s, M make, bool some) {
    READ(w, s, make, all(a));
    READ(w, s, make, a.empty());
    READ(w, s, make, std::distance(a.begin(), a.end()));
    READ(w, s, make, std::count(a.begin(), a.end(), 1));
    READ(w, s, make, std::find(a.begin(), a.end(), 2) == a.end());
    READ(w, s, make, ::ranges::distance(a));
    READ(w, s, make, ::ranges::count(a, 3));
    READ(w, s, make, (xme::find(a.begin(), a.end(), X(2)) == a.end()));
    if(some)
        READ(w, s, make, val(a.front()));
    if constexpr(requires(const T& t) { t.size(); })
        READ(w, s, make, long(a.size()));
    if constexpr(requires(const T& t) { t.back(); })
        if(some)
            READ(w, s, make, val(a.back()));
    if constexpr(requires(const T& t) { t[0]; })
        if(some)
            READ(w, s, make, val(a[0]) + val(a[a.size() - 1]));
    if constexpr(requires(const T& t) { t.at(0); })
        if(some)
            READ(w, s, make, val(a.at(0)));
    if constexpr(requires(const T& t) { t.data(); })
        READ(w, s, make, some_data(a.data(), a.size()));
    if constexpr(requires(const T& t) { t.capacity(); })
        READ(w, s, make, long(a.capacity()));
    if constexpr(requires(const T& t) { t.cbegin() == t.cend(); })
        READ(w, s, make, a.cbegin() == a.cend());
    if constexpr(requires(const T& t) { t.rbegin() == t.rend(); })
        READ(w, s, make, std::distance(a.rbegin(), a.rend()));
    if constexpr(requires(const T& t) { t.crbegin() == t.crend(); })
        READ(w, s, make, std::count(a.crbegin(), a.crend(), 1));
    if constexpr(requires(const T& t) { t == t; })
        READ(w, s, make, (a == a) * 2 + (a != a));
    if constexpr(requires(const T& t) { t < t; })
        READ(w, s, make, (a < a) * 2 + (a >= a));
    if constexpr(std::is_constructible_v<T, const T&>)
        READ(w, s, make, all(T(a)));
}
template<typename X>
static void arrays() {
    using A = xme::Array<X>;
    for(int spare = 0; spare <= 4; spare += 2)
        sizes([&](int n) {
            auto make = [n, spare] {
                A a;
                if(spare)
                    a.reserve(n + spare);
                for(int i = 0; i < n; ++i)
                    a.push_back(X(i + ctl->variant));
                return a;
            };
            const std::string s = " of " + std::to_string(n) + " with " + std::to_string(spare) + " spare";
            const char* w       = "Array";
            common_reads<A, X>(w, s, make, n > 0);
            READ(w, s, make, xme::Array<X>(a.begin(), a.end()).capacity() > 1000);
            READ(w, s, make, all(xme::LinkedList<X>(a.begin(), a.end())));
            READ(w, s, make, all(xme::Heap<X>(a.begin(), a.end())));
            READ(w, s, make, all(xme::ArrayView<const X>(a)));
            READ(w, s, make, all(xme::ArrayView<const X>(a).subview(a.size() / 2, a.size() - a.size() / 2)));
            READ(w, s, make, std::distance(xme::ReverseIterator(a.end()), xme::ReverseIterator(a.begin())));
            READ(w, s, make, long(a.end() - a.begin()));
            WRITE(w, s, make, a.push_back(X(9)));
            WRITE(w, s, make, a.push_back(X(9)); a.push_back(X(8)); a.push_back(X(7)));
            WRITE(w, s, make, a.emplace_back(9));
            WRITE(w, s, make, a.clear());
            WRITE(w, s, make, a.reserve(20));
            WRITE(w, s, make, a.resize(2));
            WRITE(w, s, make, a.resize(9));
            WRITE(w, s, make, a.insert(a.begin(), X(5)));
            WRITE(w, s, make, a.insert(a.end(), X(5)));
            WRITE(w, s, make, X b[3]{1, 2, 3}; a.insert(a.begin() + a.size() / 2, b, b + 3));
            WRITE(w, s, make, X b[3]{1, 2, 3}; a.push_back(b, b + 3));
            WRITE(w, s, make, a.erase(a.begin(), a.begin() + a.size() / 2));
            WRITE(w, s, make, a = std::decay_t<decltype(a)>());
            WRITE(w, s, make, a = { X(1), X(2) });
            WRITE(w, s, make, xme::Array<X> b; b.push_back(X(3)); a.swap(b));
            WRITE(w, s, make, std::sort(a.begin(), a.end(), std::greater<>()));
            WRITE(w, s, make, xme::reverse(a.begin(), a.end()));
            WRITE(w, s, make, std::destroy_at(&a));
            if(n) {
                WRITE(w, s, make, a.pop_back());
                WRITE(w, s, make, a.erase(a.begin()));
                WRITE(w, s, make, a.front() = X(4); a.back() = X(3));
            }
        });
    mc::sample(mc::g_trail->log);
}
template<typename X>
static void lists() {
    using L = xme::LinkedList<X>;
    sizes([&](int n) {
        auto make = [n] {
            X v[16];
            for(int i = 0; i < n; ++i)
                v[i] = X(i + ctl->variant);
            return L(v + 0, v + n);
        };
        const std::string s = " of " + std::to_string(n);
        const char* w       = "LinkedList";
        common_reads<L, X>(w, s, make, n > 0);
        READ(w, s, make, all(xme::Array<X>(a.begin(), a.end())));
        READ(w, s, make, std::next(a.before_begin()) == a.begin());
        READ(w, s, make, a.cbefore_begin() == a.before_begin());
        WRITE(w, s, make, a.push_front(X(9)));
        WRITE(w, s, make, a.emplace_front(9));
        WRITE(w, s, make, a.clear());
        WRITE(w, s, make, a.reverse());
        WRITE(w, s, make, a.insert_after(a.before_begin(), X(5)));
        WRITE(w, s, make, X b[3]{1, 2, 3}; a.insert_after(a.before_begin(), b, b + 3));
        WRITE(w, s, make, X b[3]{1, 2, 3}; a.assign(b, b + 3));
        WRITE(w, s, make, a.emplace_after(a.before_begin(), 9));
        WRITE(w, s, make, a.erase_after(a.before_begin(), a.end()));
        WRITE(w, s, make, a = { X(1), X(2) });
        WRITE(w, s, make, std::decay_t<decltype(a)> b; b.push_front(X(1)); a = std::move(b));
        WRITE(w, s, make, std::destroy_at(&a));
        if(n) {
            WRITE(w, s, make, a.pop_front());
            WRITE(w, s, make, a.erase_after(a.before_begin()));
            WRITE(w, s, make, a.front() = X(4));
        }
    });
    mc::sample(mc::g_trail->log);
}
template<typename X>
static void heaps() {
    using H = xme::Heap<X>;
    sizes([&](int n) {
        auto make = [n] {
            H h;
            for(int i = 0; i < n; ++i)
                h.push(X((i + ctl->variant) * 3 % 5));
            return h;
        };
        const std::string s = " of " + std::to_string(n);
        const char* w       = "Heap";
        common_reads<H, X>(w, s, make, n > 0);
        if(n) {
            READ(w, s, make, val(*a.begin()));
            WRITE(w, s, make, a.pop());
        }
        WRITE(w, s, make, a.push(X(9)));
        WRITE(w, s, make, a.emplace(2));
        WRITE(w, s, make, a = std::decay_t<decltype(a)>());
        WRITE(w, s, make, std::destroy_at(&a));
    });
    mc::sample(mc::g_trail->log);
}
template<typename Q>
struct Queue {
    Q q = make();
    static Q make() {
        if constexpr(std::is_constructible_v<Q, std::size_t>)
            return Q(4);
        else
            return Q();
    }
    template<typename X>
    Queue(X, int pushed, int popped) {
        for(int i = 0; i < pushed; ++i)
            q.push(X(i + ctl->variant));
        for(int i = 0; i < popped; ++i)
            q.pop();
    }
};
template<typename Q, typename X>
static void queues(const char* w) {
    for(int pushed = 0; pushed <= 3; ++pushed)
        for(int popped = 0; popped <= pushed; ++popped) {
            auto make           = [=] { return Queue<Q>(X(0), pushed, popped); };
            const std::string s = " with " + std::to_string(pushed) + " pushed and " + std::to_string(popped) + " popped";
            READ(w, s, make, long(a.q.read_available()));
            READ(w, s, make, long(a.q.write_available()));
            WRITE(w, s, make, a.q.push(X(7)));
            WRITE(w, s, make, a.q.emplace(7));
            if(popped < pushed)
                WRITE(w, s, make, long t = 0; a.q.consume([&](auto&& x) { t += val(x); }); return t);
            WRITE(w, s, make, a.q.push(X(7)); a.q.push(X(8)); a.q.push(X(9)));
            WRITE(w, s, make, std::destroy_at(&a));
            if(popped < pushed)
                WRITE(w, s, make, a.q.pop());
        }
    mc::sample(mc::g_trail->log);
}

// ---- what holds a few objects --------------------------------------------------------------------------------
struct None {
    bool operator==(const None&) const = default;
    auto operator<=>(const None&) const = default;
};
static int twice(int x) { return 2 * x; }
struct Small {
    int k;
    int operator()(int x) const { return x + k; }
};
struct Large {
    std::array<long, 9> k{3};
    int operator()(int x) const { return x + int(k[0]); }
};
struct Owning {
    Own k{4};
    int operator()(int x) const { return x + k.get(); }
};
static void holders() {
    {
        auto make = [] { return xme::Pair<Own, int>{Own(1 + ctl->variant), 2 + ctl->variant}; };
        READ("Pair", "", make, sum(val(get<0>(a)), get<1>(a)));
        READ("Pair", "", make, (a == a) * 4 + (a < a) * 2 + (a >= a));
        READ("Pair", "", make, val(xme::Pair<Own, int>(a).first));
        READ("Pair", "", make, val(xme::Pair<Own, long>{a.first, a.second}.first));
        READ("Pair", "", make, val(xme::make_pair(a.first, a.second).first));
        READ("Pair", "", make, (a[std::integral_constant<std::size_t, 1>()]));
        WRITE("Pair", "", make, a = xme::make_pair(Own(4), 5));
        WRITE("Pair", "", make, auto b = xme::make_pair(Own(4), 5); a.swap(b));
        WRITE("Pair", "", make, get<0>(a) = Own(7));
        WRITE("Pair", "", make, std::destroy_at(&a));
    }
    {
        auto make = [] { return xme::Tuple<Own, int, None>{Own(1 + ctl->variant), 2 + ctl->variant, None()}; };
        READ("Tuple", "", make, sum(val(get<0>(a)), get<1>(a)));
        READ("Tuple", "", make, (a == a) * 4 + (a < a) * 2 + (a >= a));
        READ("Tuple", "", make, val(get<0>(xme::Tuple<Own, int, None>(a))));
        READ("Tuple", "", make, xme::apply([](const Own& o, int i, None) { return sum(val(o), i); }, a));
        READ("Tuple", "", make, val(get<3>(xme::tuple_cat(a, a))));
        READ("Tuple", "", make, get<1>(xme::make_tuple(get<0>(a), get<1>(a))));
        WRITE("Tuple", "", make, a = xme::make_tuple(Own(4), 5, None()));
        WRITE("Tuple", "", make, auto b = xme::make_tuple(Own(4), 5, None()); a.swap(b));
        WRITE("Tuple", "", make, xme::tie(get<0>(a), get<1>(a), std::ignore) = xme::make_tuple(Own(7), 8, 0));
        WRITE("Tuple", "", make, std::destroy_at(&a));
    }
    using D        = xme::Delegate<int(int)>;
    auto delegates = [](const char* w, auto make) {
        READ(w, "", make, bool(a));
        READ(w, "", make, a(5));
        READ(w, "", make, D(a)(6));
        WRITE(w, "", make, a = nullptr);
        WRITE(w, "", make, a = D(Owning{}));
        WRITE(w, "", make, a = twice);
        WRITE(w, "", make, a = Small{9});
        WRITE(w, "", make, D b(Large{}); a.swap(b));
        WRITE(w, "", make, return a(7));
        WRITE(w, "", make, std::destroy_at(&a));
    };
    delegates("Delegate of a function", [] { return D(twice); });
    delegates("Delegate of a small object", [] { return D(Small{2 + ctl->variant}); });
    delegates("Delegate of a large object", [] { return D(Large{{3 + ctl->variant}}); });
    delegates("Delegate of an object that owns", [] { return D(Owning{Own(4 + ctl->variant)}); });
    {
        auto make = [] { return xme::bind_front([](const Own& o, int i, int j) { return int(o.get()) + i * j; }, Own(3 + ctl->variant), 2); };
        READ("bind_front", "", make, a(4));
        READ("bind_front", "", make, std::decay_t<decltype(a)>(a)(4));
        WRITE("bind_front", "", make, return a(4));
        WRITE("bind_front", "", make, return std::move(a)(4));
    }
    {
        auto make = [] { return xme::bind_back([](int i, const Own& o, int j) { return int(o.get()) + i * j; }, Own(3 + ctl->variant), 2); };
        READ("bind_back", "", make, a(4));
        READ("bind_back", "", make, std::decay_t<decltype(a)>(a)(4));
        WRITE("bind_back", "", make, return a(4));
        WRITE("bind_back", "", make, return std::move(a)(4));
    }
    {
        struct Held {
            xme::AlignedData<Own, 32> d{5 + ctl->variant};
            Held()            = default;
            Held(const Held&) = delete;
            Held& operator=(const Held&) = delete;
            ~Held() { std::destroy_at(d.data()); }
        };
        auto make = [] { return Held(); };
        READ("AlignedData", "", make, val(*a.d.data()));
        READ("AlignedData", "", make, a.d.address() == a.d.data());
        WRITE("AlignedData", "", make, *a.d.data() = Own(3));
    }
    {
        struct Scope {
            Own o{3 + ctl->variant};
            int n = 0;
        };
        auto make = [] { return Scope(); };
        WRITE("ScopedDelegate", "", make, { xme::ScopedDelegate f([&] { a.n += a.o.get(); }); } return a.n);
        READ("ScopedDelegate", "", make, [&] { long n = 0; { xme::ScopedDelegate f([&] { n = a.o.get(); }); } return n; }());
    }
}

// ---- functions --------------------------------------------------------------------------------------------------
template<typename T>
static void buffers(const char* w) {
    for(int n = 0; n <= (mc::thorough ? 200 : 80); ++n) {
        struct Buf {
            int n;
            std::array<T, 200> v;
        };
        auto make = [n] {
            Buf b{n, {}};
            for(int i = 0; i < n; ++i)
                b.v[i] = T(i % 100 + 1 + ctl->variant);
            return b;
        };
        const std::string s = " of " + std::to_string(n);
        guarded<false>(w, s, "find nothing", make, [](const Buf& a) -> long { return xme::find(a.v.data(), a.v.data() + a.n, T(0)) - a.v.data(); }, 1);
        guarded<false>(w, s, "find", make, [](const Buf& a) -> long { return xme::find(a.v.data(), a.v.data() + a.n, T(a.n / 2)) - a.v.data(); }, 1);
        guarded<true>(w, s, "reverse", make, [](Buf& a) -> long { xme::reverse(a.v.data(), a.v.data() + a.n); return some_data(a.v.data(), a.n); }, 1);
        guarded<true>(w, s, "uninitialized_copy and destroy", make, [](Buf& a) -> long {
            T out[200];
            std::allocator<T> al;
            xme::ranges::uninitialized_copy_a(a.v.data(), a.v.data() + a.n, out, out + 200, al);
            long r = some_data(out, a.n);
            xme::ranges::destroy_a(out, out + a.n, al);
            xme::ranges::uninitialized_fill_n_a(out, a.n, T(3), al);
            xme::ranges::destroy_n_a(out, a.n, al);
            return r; }, 1);
    }
}
namespace m = xme::math;
template<typename V>
static long bits(const V& v) {
    unsigned char b[sizeof(V)];
    std::memcpy(b, &v, sizeof b);
    long s = 1;
    for(unsigned char c : b)
        s = sum(s, c);
    return s;
}
#define F1(...) guarded<false>(name, "", #__VA_ARGS__, make, [](const auto& a) -> long { return bits(__VA_ARGS__); }, 1)
#define W1(...) guarded<true>(name, "", #__VA_ARGS__, make, [](auto& a) -> long { __VA_ARGS__; return bits(a); }, 1)
template<typename V, typename T>
static void vectors(const char* name) {
    auto make = [] {
        V v;
        for(std::size_t i = 0; i < sizeof(V) / sizeof(T); ++i)
            v[i] = T(i + 2 + ctl->variant);
        return v;
    };
    F1(a + a), F1(a - a), F1(a * a), F1(a / a), F1(a + T(2)), F1(a * T(2)), F1(-a), F1(a == a), F1(a < a), F1(a[1]);
    F1(m::dot(a, a)), F1(m::sign(a)), F1(V(a)), F1(m::reflect(a, a)), F1(m::faceforward(a, a, a));
    W1(a += a), W1(a -= V(T(1))), W1(a *= T(3)), W1(a /= T(2)), W1(a[0] = T(4)), W1(a = V(T(5)));
    if constexpr(std::is_floating_point_v<T>)
        F1(a.length()), F1(a.normalize()), F1(m::length(a)), F1(m::normalize(a)), F1(m::distance(a, a)), F1(m::lerp(a, a, T(0.5))), F1(m::lerp(a, a, a)), F1(m::mix(a, a, T(0.5)));
    if constexpr(std::is_same_v<V, m::Vector<T, 3>>)
        F1(m::cross(a, a));
}
template<typename M, typename T, int C, int R>
static void matrices(const char* name) {
    auto make = [] {
        M x;
        for(int c = 0; c < C; ++c)
            for(int r = 0; r < R; ++r)
                x[c][r] = T(c * c + r + (c == r) * (5 + ctl->variant));
        return x;
    };
    F1(a + a), F1(a - a), F1(a * T(2)), F1(-a), F1(a == a), F1(a[1]), F1(a.column(0)), F1(a.row(1)), F1(m::transpose(a)), F1(m::hadamard_product(a, a)), F1(m::outer_product(a[0], a[0]));
    F1(a * a.row(0)), F1(a * m::transpose(a));
    W1(a += a), W1(a -= a), W1(a *= T(2)), W1(a[0][1] = T(9)), W1(a = M(T(3)));
    if constexpr(C == R && C <= 4)
        F1(a * a), F1(m::determinant(a));
    if constexpr(C == 4 && R == 4) {
        F1(a.transpose()), F1(a.determinant());
        F1(m::translate(a, m::Vector<T, 3>(1, 2, 3))), F1(m::scale(a, m::Vector<T, 3>(1, 2, 3)));
        if constexpr(std::is_floating_point_v<T>)
            F1(m::rotate(a, T(0.5), m::Vector<T, 3>(0, 0, 1)));
    }
}
template<typename T>
static void scalars(const char* name) {
    auto make = [] { return T(0.75) - ctl->variant * T(0.25); };
    F1(m::radians(a)), F1(m::degrees(a)), F1(m::sign(a)), F1(m::sec(a)), F1(m::csc(a)), F1(m::cot(a)), F1(m::arcsin(a)), F1(m::arccos(a)), F1(m::arctan(a));
    F1(m::perspective_rh(a, T(1), T(1), T(9))), F1(m::perspective_lh(a, T(1), T(1), T(9))), F1(m::perspective(a, T(1), T(1), T(9)));
    F1(m::perspective_rh(-a, a, -a, a, T(1), T(9))), F1(m::perspective_lh(-a, a, -a, a, T(1), T(9))), F1(m::perspective(-a, a, -a, a, T(1), T(9)));
    F1(m::ortho_rh(-a, a, -a, a, T(1), T(9))), F1(m::ortho_lh(-a, a, -a, a, T(1), T(9))), F1(m::ortho(-a, a, -a, a, T(1), T(9)));
}
template<typename T>
static void quaternions(const char* name) {
    auto make = [] { return m::Quaternion<T>(1, 2, 3, 4 + ctl->variant); };
    F1(a + a), F1(a - a), F1(a * a), F1(a == a), F1(a < a), F1(a[2]), F1(m::Quaternion<T>(a));
    W1(a = a * a), W1(a[1] = T(7));
}

static void setup() {
    prepare();
    mc::add("array", [] { arrays<int>(), arrays<Own>(); });
    mc::add("list", [] { lists<int>(), lists<Own>(); });
    mc::add("heap", [] { heaps<int>(), heaps<Own>(); });
    mc::add("queue", [] {
        queues<xme::SPSCQueue<int>, int>("SPSCQueue"), queues<xme::SPSCQueue<Own>, Own>("SPSCQueue of objects");
        queues<xme::SPSCQueue<int, xme::Capacity<4>>, int>("SPSCQueue of static size"), queues<xme::SPSCQueue<Own, xme::Capacity<4>>, Own>("SPSCQueue of static size, of objects");
    });
    mc::add("holders", holders);
    mc::add("functions", [] {
        buffers<std::uint8_t>("bytes"), buffers<std::int16_t>("shorts"), buffers<int>("ints"), buffers<long>("longs"), buffers<float>("floats");
        vectors<m::Vector<float, 2>, float>("Vector of 2"), vectors<m::Vector<float, 3>, float>("Vector of 3"), vectors<m::Vector<float, 4>, float>("Vector of 4"), vectors<m::Vector<double, 5>, double>("Vector of 5"), vectors<m::Vector<int, 3>, int>("Vector of 3 integers"), vectors<m::Vector<int, 6>, int>("Vector of 6 integers");
        matrices<m::Matrix<float, 2, 2>, float, 2, 2>("Matrix of 2x2"), matrices<m::Matrix<float, 3, 3>, float, 3, 3>("Matrix of 3x3"), matrices<m::Matrix<float, 4, 4>, float, 4, 4>("Matrix of 4x4"), matrices<m::Matrix<double, 4, 4>, double, 4, 4>("Matrix of 4x4 doubles");
        matrices<m::Matrix<float, 2, 3>, float, 2, 3>("Matrix of 2x3"), matrices<m::Matrix<float, 4, 2>, float, 4, 2>("Matrix of 4x2"), matrices<m::Matrix<double, 5, 5>, double, 5, 5>("Matrix of 5x5");
        scalars<float>("float"), scalars<double>("double");
        quaternions<float>("Quaternion"), quaternions<double>("Quaternion of doubles");
        mc::sample(mc::g_trail->log);
    });
}
MC_MAIN(setup)
