// C02: element and storage lifetimes of Array.
#include "array_sys.hpp"
#include <set>
using namespace as;
template<typename T, typename Al>
using L = Sys<T, Al, Life>;
template<typename T, typename Al>
static void one(const char* name, int depth) {
    const bool t = mc::thorough;
    mc::add(std::string("history.") + name, [=] { mc::bfs<L<T, Al>>({depth + (t ? 2 : mc::fast)}, Cfg{4, 3, 2, true, !t}); });
    mc::add(std::string("shapes.") + name, [=] { sweep<L<T, Al>>({}, upto(t ? 16 : 9), 4, 4, true); }, 2);
    mc::add(std::string("large.") + name, [=] { sweep<L<T, Al>>({}, {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129}, 2, 3, false, true); });
}
//! element types the Array must not touch more than it has to
struct alignas(64) Wide {
    int v;
    Wide(int x) : v(x) { home(); }
    Wide(const Wide& o) : v(o.v) { home(); }
    Wide(Wide&& o) noexcept : v(o.v) { home(); }
    Wide& operator=(const Wide&) = default;
    Wide& operator=(Wide&&)      = default;
    int id() const { return v; }
    void home() const { REQUIRE(((std::uintptr_t)this & 63) == 0, "an over-aligned element was constructed at a misaligned address"); }
};
//! an allocator that has a say in the construction and destruction of elements
inline std::set<const void*> g_by_allocator;
template<typename T>
struct Maker : tk::Alloc<T, false> {
    template<typename U>
    struct rebind {
        using other = Maker<U>;
    };
    Maker() = default;
    template<typename U>
    Maker(const Maker<U>&) noexcept {}
    template<typename... A>
    void construct(T* p, A&&... a) {
        ::new(static_cast<void*>(p)) T(std::forward<A>(a)...);
        REQUIRE(g_by_allocator.insert(p).second, "the allocator constructs an element where one is");
    }
    void destroy(T* p) {
        REQUIRE(g_by_allocator.erase(p) == 1, "the allocator destroys an element it has not constructed");
        p->~T();
    }
    void deallocate(T* p, std::size_t n) noexcept {
        auto i = g_by_allocator.lower_bound(p);
        REQUIRE(i == g_by_allocator.end() || *i >= p + n, "memory given back with an element the allocator has not destroyed");
        tk::Alloc<T, false>::deallocate(p, n);
    }
};
static void setup() {
    using namespace tk;
    one<Elem, Maker<Elem>>("elem.constructing", 3);
    one<MoveOnly, Maker<MoveOnly>>("moveonly.constructing", 3);
    one<Elem, Alloc<Elem, true>>("elem.stateful", 3);
    one<Elem, Alloc<Elem, false>>("elem.stateless", 4);
    one<MoveOnly, Alloc<MoveOnly, true>>("moveonly.stateful", 3);
    one<CopyOnly, Alloc<CopyOnly, true>>("copyonly.stateful", 3);
    one<Thrower, Alloc<Thrower, true>>("throwing_move.stateful", 3);
    mc::add("history.overaligned", [=] { mc::bfs<Sys<Wide, std::allocator<Wide>, Seq>>({3}, Cfg{4, 3, 2, true, true}); });
    mc::add("shapes.overaligned", [=] { sweep<Sys<Wide, std::allocator<Wide>, Seq>>({}, upto(6), 3, 3, true); });
}
MC_MAIN(setup)
