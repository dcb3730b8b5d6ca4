// C01: an Array holds the sequence its operation history describes.
#include "array_sys.hpp"
using namespace as;
//! only constructible: an array of these can still grow, shrink at the end, and be copied and moved
struct Fixed {
    const int v;
    Fixed(int x) : v(x) {}
    int id() const { return v; }
};
struct Fixeds {
    using Arr = xme::Array<Fixed>;
    Arr a[2];
    std::vector<int> ref[2];
    int fresh = 1;
    std::uint32_t ops() { return 24; }
    bool apply(std::uint32_t i) {
        const int x = i & 1;
        Arr &A = a[x], &B = a[!x];
        auto &R = ref[x], &S = ref[!x];
        switch(i / 2) {
        case 0: OP("%c.push_back(const&)", "AB"[x]); { const Fixed f(fresh); A.push_back(f); } R.push_back(fresh++); break;
        case 1: OP("%c.emplace_back", "AB"[x]); A.emplace_back(fresh); R.push_back(fresh++); break;
        case 2: if(R.empty()) return false; OP("%c.push_back(own element)", "AB"[x]); A.push_back(A.front()); R.push_back(R.front()); break;
        case 3: if(R.empty()) return false; OP("%c.pop_back", "AB"[x]); A.pop_back(); R.pop_back(); break;
        case 4: OP("%c.clear", "AB"[x]); A.clear(); R.clear(); break;
        case 5: OP("%c.reserve", "AB"[x]); A.reserve(A.size() + 2); break;
        case 6: OP("%c.resize", "AB"[x]); A.resize(A.size()); break;
        case 7: if(R.empty()) return false; OP("%c.resize below", "AB"[x]); A.resize(A.size() - 1); R.pop_back(); break;
        case 8: OP("%c constructed from the other", "AB"[x]); std::destroy_at(&A); std::construct_at(&A, std::as_const(B)); R = S; break;
        case 9: OP("%c move constructed from the other", "AB"[x]); std::destroy_at(&A); std::construct_at(&A, std::move(B)); R = S; S.clear(); break;
        case 10: OP("%c from a range", "AB"[x]); { std::vector<int> v{fresh, fresh + 1, fresh + 2}; std::destroy_at(&A); std::construct_at(&A, v); R = v; fresh += 3; } break;
        case 11: if(x) return false; OP("swap"); A.swap(B); std::swap(R, S); break;
        }
        for(int y = 0; y < 2; ++y) {
            REQUIRE(a[y].size() == ref[y].size(), "%c has %zu elements instead of %zu", "AB"[y], a[y].size(), ref[y].size());
            for(std::size_t k = 0; k < ref[y].size(); ++k)
                REQUIRE(a[y][k].v == ref[y][k], "%c[%zu] is %d instead of %d", "AB"[y], k, a[y][k].v, ref[y][k]);
        }
        return ref[x].size() <= 6;
    }
    std::string key() {
        std::string k;
        for(int y = 0; y < 2; ++y)
            k += (char)a[y].size(), k += (char)a[y].capacity();
        return k;
    }
    void finish() {}
};
using I = Sys<int, std::allocator<int>, Seq>;
using V = Sys<tk::Val, std::allocator<tk::Val>, Seq>;
template<typename T>
using Of = Sys<T, std::allocator<T>, Seq>;
template<typename T>
static void type(const std::string& name) {
    const bool t = mc::thorough;
    mc::add("history." + name, [=] { mc::bfs<Of<T>>({t ? 5 : 3}, Cfg{4, 2, 2, true, true}); });
    mc::add("shapes." + name, [=] { sweep<Of<T>>({}, upto(t ? 14 : 9), 4, 4, true); }, 2);
    mc::add("large." + name, [=] { sweep<Of<T>>({}, {16, 33, 127}, 3, 3, false, true); });
}
static void setup() {
    const bool t = mc::thorough;
    mc::add("history.val", [=] { mc::bfs<V>({t ? 6 : 4 + mc::fast}, Cfg{4, 3, 2, true, !t}); });
    mc::add("history.int", [=] { mc::bfs<I>({t ? 6 : 4}, Cfg{4, 3, 2, true, true}); });
    mc::add("one_array.val", [=] { mc::bfs<V>({t ? 7 + mc::fast : 5 + mc::fast}, Cfg{4, 2, 2, false, false}); });
    mc::add("one_array_nodedup.val", [=] { mc::bfs<V>({t ? 4 : 3, ~0ull, false}, Cfg{3, 2, 2, false, true}); });
    mc::add("shapes.val", [=] { sweep<V>({}, upto(t ? 24 : 14), 4, 5, true); }, 4);
    mc::add("shapes.int", [=] { sweep<I>({}, upto(t ? 24 : 14), 4, 5, true); }, 4);
    mc::add("large.val", [=] { sweep<V>({}, kBoundary, 4, 5, false, true); }, 8);
    mc::add("large.int", [=] { sweep<I>({}, kBoundary, 4, 5, false, true); }, 8);
    type<Pod12>("pod12");
    type<Pod3>("pod3");
    type<Str>("string");
    type<Awkward>("awkward");
    mc::add("history.fixed", [=] { mc::bfs<Fixeds>({t ? 10 : 7}); });
}
MC_MAIN(setup)
