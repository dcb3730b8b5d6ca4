// C24: SharedLibrary over a stubbed dynamic loader whose every open may fail: all histories over three objects.
#include "mc.hpp"
#include <dlfcn.h>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>

namespace fake {
struct Loader {
    bool real     = false;  // pass calls on to the real loader
    bool counted  = false;  // opening an open library again returns the same handle, as the real loader does
    bool fail_next = false;
    struct Lib {
        std::string name;
        int refs = 0;
    };
    std::vector<Lib> libs;      // handle = &token[index]
    char token[4096];
    int opens = 0, closes = 0, lookups = 0;
    std::string opened_name, symbol;
    void* looked_in = nullptr;
    void* result    = nullptr;
    int index(void* h) const {
        const char* c = static_cast<const char*>(h);
        if(c < token || c >= token + libs.size())
            return -1;
        return int(c - token);
    }
    int live() const {
        int n = 0;
        for(auto& l : libs)
            n += l.refs;
        return n;
    }
};
static Loader* g = nullptr;
static void* (*const real_open)(const char*, int)            = ::dlopen;
static int (*const real_close)(void*)                        = ::dlclose;
static void* (*const real_sym)(void*, const char*)           = ::dlsym;
}  // namespace fake
extern "C" void* mc_dlopen(const char* name, int flags) {
    using fake::g;
    ++g->opens;
    REQUIRE(name != nullptr, "the loader is given no name");
    g->opened_name = name;
    if(g->real)
        return fake::real_open(name, flags);
    REQUIRE(flags & (RTLD_NOW | RTLD_LAZY), "dlopen with neither RTLD_NOW nor RTLD_LAZY");
    if(std::exchange(g->fail_next, false))
        return nullptr;
    if(g->counted)
        for(std::size_t i = 0; i < g->libs.size(); ++i)
            if(g->libs[i].name == name && g->libs[i].refs > 0) {
                ++g->libs[i].refs;
                return g->token + i;
            }
    g->libs.push_back({name, 1});
    return g->token + g->libs.size() - 1;
}
extern "C" int mc_dlclose(void* h) {
    using fake::g;
    ++g->closes;
    if(g->real)
        return fake::real_close(h);
    int i = g->index(h);
    REQUIRE(i >= 0, "dlclose of something that is no library");
    REQUIRE(g->libs[i].refs > 0, "library '%s' is closed again", g->libs[i].name.c_str());
    --g->libs[i].refs;
    return 0;
}
extern "C" void* mc_dlsym(void* h, const char* name) {
    using fake::g;
    ++g->lookups;
    g->symbol    = name;
    g->looked_in = h;
    if(g->real)
        return fake::real_sym(h, name);
    int i = g->index(h);
    REQUIRE(i >= 0 && g->libs[i].refs > 0, "a symbol is looked up in something that is not an open library");
    return g->result;
}
#define dlopen mc_dlopen
#define dlclose mc_dlclose
#define dlsym mc_dlsym
#include <xme/hal/shared_library.hpp>
#undef dlopen
#undef dlclose
#undef dlsym
using xme::hal::SharedLibrary;

static_assert(!std::is_copy_constructible_v<SharedLibrary> && !std::is_copy_assignable_v<SharedLibrary>);
static_assert(std::is_nothrow_move_constructible_v<SharedLibrary> && std::is_nothrow_move_assignable_v<SharedLibrary> && std::is_default_constructible_v<SharedLibrary>);
static_assert(std::is_constructible_v<SharedLibrary, std::string_view>);

static const char* const names[] = {"liba.so", "./dir with space/liba.so.1", "b"};
constexpr int NL                 = 3;
//! the name as the middle of a longer string
static std::string_view part(const std::string& s, std::string& buf) {
    buf = "xx" + s + "yy";
    return std::string_view(buf).substr(2, s.size());
}

template<int N>
struct Sys {
    fake::Loader loader;
    std::optional<SharedLibrary> o[N];
    int want[N];  // -1 closed, else the index of the library held, in names
    Sys(bool counted) {
        loader.counted = counted;
        fake::g        = &loader;
        for(int& w : want)
            w = -1;
    }
    static constexpr int per = 2 + NL * 2 + NL * 2 + 1 + 1;  // per object: create, destroy, open/construct (name x fails), close, lookup
    std::uint32_t ops() const { return N * per + N * N * 2; }

    int held(int i) {  // which library an object holds, by looking a symbol up in it
        if(!o[i]->is_open())
            return -1;
        static int thing;
        loader.result   = &thing;
        const int before = loader.lookups;
        void* p         = std::as_const(*o[i]).template proc_address<void*>("probe");
        REQUIRE(p == &thing && loader.lookups == before + 1 && loader.symbol == "probe", "object %d: the symbol found is not returned", i);
        const std::string& n = loader.libs[loader.index(loader.looked_in)].name;
        for(int k = 0; k < NL; ++k)
            if(n == names[k])
                return k;
        mc::fail("object %d holds the library '%s', which no one opened", i, n.c_str());
    }
    void settle() {
        int n = 0;
        for(int i = 0; i < N; ++i) {
            if(!o[i])
                continue;
            REQUIRE(o[i]->is_open() == (want[i] >= 0), "object %d: is_open is %d", i, o[i]->is_open());
            const int h = held(i);
            REQUIRE(h == want[i], "object %d holds the library %s, expected %s", i, h < 0 ? "none" : names[h], want[i] < 0 ? "none" : names[want[i]]);
            n += h >= 0;
        }
        REQUIRE(loader.live() == n, "%d libraries are open but %d objects hold one", loader.live(), n);
    }
    bool apply(std::uint32_t op) {
        std::string buf;
        const int opens = loader.opens;
        if(op < N * per) {
            const int i = op / per;
            int k       = op % per;
            if(k == 0) {
                if(o[i])
                    return false;
                OP("o%d: SharedLibrary()", i);
                o[i].emplace();
                want[i] = -1;
                REQUIRE(loader.opens == opens, "default construction opens something");
            }
            else if(k == 1) {
                if(!o[i])
                    return false;
                OP("destroy o%d", i);
                o[i].reset();
                want[i] = -1;
            }
            else if(k < 2 + NL * 4) {
                k -= 2;
                const bool ctor = k >= NL * 2, fails = k % 2;
                const int lib   = k % (NL * 2) / 2;
                if(ctor == o[i].has_value())
                    return false;
                OP("o%d: %s(\"%s\")%s", i, ctor ? "SharedLibrary" : "open", names[lib], fails ? ", which fails" : "");
                loader.fail_next = fails;
                if(ctor)
                    o[i].emplace(part(names[lib], buf));
                else
                    o[i]->open(part(names[lib], buf));
                REQUIRE(loader.opens == opens + 1 && loader.opened_name == names[lib], "the loader is asked %d times to open something, last '%s'", loader.opens - opens,
                        loader.opened_name.c_str());
                want[i] = fails ? -1 : lib;
            }
            else if(k == 2 + NL * 4) {
                if(!o[i])
                    return false;
                OP("o%d: close()", i);
                o[i]->close();
                want[i] = -1;
            }
            else {
                if(!o[i] || want[i] < 0)
                    return false;
                OP("o%d: lookups", i);
                lookups(i);
            }
        }
        else {
            op -= N * per;
            const int i = op / 2 % N, j = op / 2 / N;  // from i to j
            if(op % 2) {
                if(i == j || !o[i] || o[j])
                    return false;
                OP("o%d: SharedLibrary(move(o%d))", j, i);
                o[j].emplace(std::move(*o[i]));
                want[j] = std::exchange(want[i], -1);
            }
            else {
                if(!o[i] || !o[j])
                    return false;
                OP("o%d = move(o%d)", j, i);
                SharedLibrary& r = (*o[j] = std::move(*o[i]));
                REQUIRE(&r == &*o[j], "the assignment does not return its target");
                if(i != j) {
                    // what the target held is closed, or handed to the source
                    const int was = want[j];
                    want[j]       = want[i];
                    want[i]       = o[i]->is_open() ? was : -1;
                }
            }
            REQUIRE(loader.opens == opens, "a move opens something");
        }
        settle();
        return true;
    }
    void lookups(int i) {
        const SharedLibrary& l = *o[i];
        std::string buf;
        static int data;
        static void (*const fn)(int) = [](int) {};
        loader.result                = &data;
        REQUIRE(l.proc_address<int*>(part("data", buf)) == &data && loader.symbol == "data", "data symbol '%s'", loader.symbol.c_str());
        REQUIRE(l.proc_address<const char*>(part("_Zchars", buf)) == (const char*)&data && loader.symbol == "_Zchars", "data symbol '%s'", loader.symbol.c_str());
        loader.result = (void*)fn;
        REQUIRE(l.proc_address<void (*)(int)>(part("function", buf)) == fn && loader.symbol == "function", "function symbol '%s'", loader.symbol.c_str());
        loader.result = nullptr;
        REQUIRE(l.proc_address<void (*)(int)>("absent") == nullptr && l.proc_address<int*>("absent") == nullptr, "an absent symbol is found");
    }
    std::string key() {
        std::string k;
        for(int i = 0; i < N; ++i)
            k += o[i] ? want[i] < 0 ? 'c' : char('0' + want[i]) : '-';
        return k;
    }
    void finish() {
        fake::g = &loader;
        for(auto& x : o)
            x.reset();
        REQUIRE(loader.live() == 0, "%d libraries are still open when all objects are gone", loader.live());
    }
};
//! the same with nothing stubbed
static void real() {
    mc::begin_case();
    mc::log("the C library's own loader");
    fake::Loader l;
    l.real  = true;
    fake::g = &l;
    {
        SharedLibrary m("libm.so.6"), none("no-such-library.so");
        REQUIRE(m.is_open() && !none.is_open(), "opening libm: %d, a missing library: %d", m.is_open(), none.is_open());
        auto f = m.proc_address<double (*)(double)>("floor");
        REQUIRE(f && f(2.5) == 2, "floor");
        REQUIRE(!m.proc_address<void*>("no_such_symbol"), "a missing symbol is found");
        SharedLibrary n(std::move(m));
        REQUIRE(!m.is_open() && n.is_open() && n.proc_address<double (*)(double)>("ceil")(2.5) == 3, "ceil");
        none = std::move(n);
        REQUIRE(none.is_open() && none.proc_address<double (*)(double)>("ceil")(2.5) == 3, "after move assignment");
        none.open("no-such-library.so");
        REQUIRE(!none.is_open(), "open after a failure");
    }
    REQUIRE(l.opens == 3 && l.closes == 1, "%d opens, %d closes", l.opens, l.closes);
    ++mc::st.execs;
    ++mc::st.states;
}
static void setup() {
    mc::add("three-objects", [] { mc::bfs<Sys<3>>({mc::thorough ? 40 : 12}, false); });
    mc::add("three-objects-counted", [] { mc::bfs<Sys<3>>({mc::thorough ? 40 : 12}, true); });
    mc::add("histories", [] { mc::bfs<Sys<2>>({mc::thorough ? 5 : 4, ~0ull, false}, true); });
    mc::add("real", real);
}
MC_MAIN(setup)
