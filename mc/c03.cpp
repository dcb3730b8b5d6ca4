// C03: capacity of Array.
#include "array_sys.hpp"
#include <cmath>
using namespace as;
using V = Sys<tk::Val, tk::Alloc<tk::Val, true>, Cap>;
using I = Sys<int, tk::Alloc<int, true>, Cap>;

//! appending n elements to an array of any capacity reallocates at most about log2(n) times
template<typename T>
static void growth(unsigned max) {
    using Arr = xme::Array<T, tk::Alloc<T, true>>;
    for(unsigned cap = 0; cap <= 40; ++cap)
        for(int how = 0; how < 4; ++how) {
            mc::begin_case();
            OP("appending %u elements in way %d to an array of capacity %u", max, how, cap);
            tk::reset_registry();
            {
                Arr a(std::size_t{cap}, tk::Alloc<T, true>(1));
                unsigned reallocs = 0;
                T same(0);
                for(unsigned i = 0; i < (how == 3 ? std::min(max, 1500u) : max); ++i) {
                    auto before = tk::cnt.alloc;
                    auto room   = a.capacity() - a.size();
                    auto* data  = std::to_address(a.begin());
                    switch(how) {
                    case 0: a.push_back(T(i)); break;
                    case 1: a.emplace_back(i); break;
                    case 2: a.push_back(same); break;
                    case 3: a.insert(a.begin() + a.size() / 2, T(i)); break;
                    }
                    if(room)
                        REQUIRE(tk::cnt.alloc == before && std::to_address(a.begin()) == data, "append reallocated with room for %zu", (std::size_t)room);
                    reallocs += tk::cnt.alloc != before;
                    mc::evaluated_once();
                    // geometric growth with any factor of at least 1.5, and a few steps while small
                    double bound = 8 + std::log((double)(i + 2)) / std::log(1.5);
                    REQUIRE(reallocs <= bound, "%u reallocations for %u appended elements", reallocs, i + 1);
                }
                ++mc::st.execs;
            }
            tk::expect_clean("after the array is destroyed");
        }
}
static void setup() {
    const bool t = mc::thorough;
    mc::add("history.val", [=] { mc::bfs<V>({t ? 6 : 4 + mc::fast}, Cfg{4, 3, 2, true, !t}); });
    mc::add("history.int", [=] { mc::bfs<I>({t ? 5 : 3 + mc::fast}, Cfg{4, 3, 2, true, !t}); });
    mc::add("one_array.val", [=] { mc::bfs<V>({t ? 7 : 5}, Cfg{5, 4, 3, false, true}); });
    mc::add("shapes.val", [=] { sweep<V>({}, upto(t ? 24 : 14), 6, 5, true); }, 4);
    mc::add("shapes.int", [=] { sweep<I>({}, upto(t ? 24 : 14), 6, 5, true); }, 4);
    mc::add("large.val", [=] { sweep<V>({}, kBoundary, 4, 5, false, true); }, 4);
    mc::add("growth.val", [=] { growth<tk::Val>(t ? 20000 : 3000); });
    mc::add("growth.int", [=] { growth<int>(t ? 20000 : 3000); });
}
MC_MAIN(setup)
