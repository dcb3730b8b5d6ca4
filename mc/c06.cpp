// C06: a LinkedList holds the sequence its operation history describes.
#include "list_sys.hpp"
using namespace ls;
using I = Sys<int, std::allocator<int>, Seq>;
using V = Sys<tk::Val, std::allocator<tk::Val>, Seq>;
template<typename T>
static void type(const std::string& name) {
    const bool t = mc::thorough;
    using S      = Sys<T, std::allocator<T>, Seq>;
    mc::add("history." + name, [=] { mc::bfs<S>({t ? 5 : 3}, Cfg{4, 2, true, true}); });
    mc::add("shapes." + name, [=] { sweep<S>(t ? 9 : 6, 3, 3); });
    mc::add("large." + name, [=] { sweep_long<S>({17, 64}); });
}
static void setup() {
    const bool t = mc::thorough;
    mc::add("history.val", [=] { mc::bfs<V>({t ? 6 : 4 + mc::fast}, Cfg{4, 2, true, !t}); });
    mc::add("history.int", [=] { mc::bfs<I>({t ? 6 : 4 + mc::fast}, Cfg{4, 2, true, true}); });
    mc::add("one_list.val", [=] { mc::bfs<V>({t ? 7 : 5 + mc::fast}, Cfg{5, 2, false, false}); });
    mc::add("nodedup.val", [=] { mc::bfs<V>({t ? 4 : 3, ~0ull, false}, Cfg{3, 1, true, true}); });
    mc::add("shapes.val", [=] { sweep<V>(t ? 14 : 9, 3, 3); });
    mc::add("shapes.int", [=] { sweep<I>(t ? 14 : 9, 3, 3); });
    mc::add("large.val", [=] { sweep_long<V>({16, 17, 33, 64, t ? 1000u : 257u}); });
    type<Pod12>("pod12");
    type<Pod3>("pod3");
    type<Str>("string");
    type<Awkward>("awkward");
}
MC_MAIN(setup)
