// C19: every program of nested scopes, objects in them and ways of leaving them, against a stack.
#include "mc.hpp"
#include <functional>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <xme/core/functional/bind.hpp>
#include <xme/core/functional/delegate.hpp>
#include <xme/core/functional/scoped_delegate.hpp>

using xme::ScopedDelegate;

// ---- what happened, and what should have ----------------------------------------------------------
static std::vector<int> g_log, g_want;
static std::set<const void*> g_functors;
static long g_copies, g_moves, g_want_copies, g_want_moves, g_fault;
static bool g_faulted;

//! a functor that logs its id, and knows whether it is alive
struct Fn {
    int id;
    const Fn* self = this;
    explicit Fn(int i) : id(i) { g_functors.insert(this); }
    Fn(const Fn& o) : id(o.id) {
        o.check();
        if(g_fault && --g_fault == 0) {
            g_faulted = true;
            throw std::runtime_error("copy");
        }
        ++g_copies;
        g_functors.insert(this);
    }
    Fn(Fn&& o) noexcept : id(o.id) {
        o.check();
        ++g_moves;
        o.id = -100;
        g_functors.insert(this);
    }
    ~Fn() {
        check();
        g_functors.erase(this);
        self = nullptr;
        id   = -200;
    }
    void check() const { REQUIRE(self == this && g_functors.count(this), "a callable is used outside its lifetime"); }
    void operator()() const noexcept {
        check();
        g_log.push_back(id);
    }
};
struct MoveOnly {
    std::unique_ptr<int> id;
    void operator()() { g_log.push_back(*id); }
};
struct Mutable {
    int id, n = 0;
    int operator()() {
        REQUIRE(n++ == 0, "a callable is called twice");
        g_log.push_back(id);
        return 5;  // (ignored)
    }
};
struct Guard {  // an object like any other in the scope
    int id;
    ~Guard() { g_log.push_back(id); }
};
static int g_plain_id;
static void plain() { g_log.push_back(g_plain_id); }

struct Leave {
    int id;
};

// ---- programs ---------------------------------------------------------------------------------------
enum Obj { o_lambda, o_fn_lvalue, o_fn_const, o_fn_rvalue, o_gone, o_changed, o_moveonly, o_mutable, o_std, o_delegate, o_bound, o_guard, objs };
static const char* obj_name[] = {"lambda", "functor", "const functor", "moved functor", "functor that is gone", "functor changed later",
                                 "move-only functor", "mutable functor", "std::function", "Delegate", "binder", "other object"};
enum Scope { s_block, s_break, s_continue, s_goto, s_return, s_try, s_throw, s_switch, scopes };
static const char* scope_name[] = {"block", "loop left by break", "loop left by continue", "block left by goto", "function left by return",
                                   "try block", "try block left by an exception", "switch left by break"};

struct Program {
    mc::Choices& choose;
    std::vector<int> width;  // of the scopes at each nesting depth, innermost first
    const int* objects;
    int nobj;
    int next = 1;
    void note(int id) { g_log.push_back(id); }
    //! declares an object, then runs what follows in its scope
    template<typename F>
    void declare(int obj, int id, F&& rest) {
        const long copies = g_copies, moves = g_moves;
        auto body = [&](long c, long m) {
            g_want_copies += c, g_want_moves += m;
            REQUIRE(g_copies - copies == c && g_moves - moves == m, "storing a %s made %ld copies and %ld moves", obj_name[obj], g_copies - copies, g_moves - moves);
            rest();
        };
        switch(obj) {
            case o_lambda: {
                ScopedDelegate d{[this, id] { note(id); }};
                body(0, 0);
                break;
            }
            case o_fn_lvalue: {
                Fn f(id);
                ScopedDelegate d{f};
                REQUIRE(f.id == id, "the callable was changed");
                body(1, 0);
                break;
            }
            case o_fn_const: {
                const Fn f(id);
                ScopedDelegate d{f};
                body(1, 0);
                break;
            }
            case o_fn_rvalue: {
                ScopedDelegate d{Fn(id)};
                body(0, 1);
                break;
            }
            case o_gone: {
                auto f = std::make_unique<Fn>(id);
                ScopedDelegate<Fn> d(*f);
                f.reset();
                body(1, 0);
                break;
            }
            case o_changed: {
                Fn f(id);
                ScopedDelegate<Fn> d(f);
                f.id = 555;
                body(1, 0);
                break;
            }
            case o_moveonly: {
                MoveOnly m{std::make_unique<int>(id)};
                ScopedDelegate d{std::move(m)};
                REQUIRE(!m.id, "an rvalue is not moved from");
                body(0, 0);
                break;
            }
            case o_mutable: {
                Mutable m{id};
                ScopedDelegate d{m};
                m.id = 556;
                body(0, 0);
                REQUIRE(m.n == 0, "the original was called");
                break;
            }
            case o_std: {
                std::function<void()> f = [this, id] { note(id); };
                ScopedDelegate d{f};
                f = nullptr;
                rest();
                break;
            }
            case o_delegate: {
                xme::Delegate<void()> f([this, id] { note(id); });
                ScopedDelegate d{f};
                f = nullptr;
                rest();
                break;
            }
            case o_bound: {
                ScopedDelegate d{xme::bind_front([this](int i) { note(i); }, id)};
                rest();
                break;
            }
            case o_guard: {
                Guard g{id};
                rest();
                break;
            }
        }
    }
    //! objects, nested scopes and marks of one scope, then leave()
    template<typename F>
    void statements(int left, int depth_left, F&& leave) {
        const int id = next++;
        note(id);
        g_want.push_back(id);
        const int kinds = nobj + (depth_left > 0 ? scopes : 0) + 1;
        const int k     = left == 0 ? 0 : (int)choose(kinds);
        if(k == 0) {
            mc::log("leave ");
            leave();
            return;
        }
        if(k <= nobj) {
            const int obj = objects[k - 1], oid = next++;
            mc::log("%s %d; ", obj_name[obj], oid);
            struct Pop {  // what the model expects at the end of the object's life
                int id;
                ~Pop() { g_want.push_back(id); }
            };
            if constexpr(true) {
                Pop p{oid};
                declare(obj, oid, [&] {
                    REQUIRE(g_log == g_want, "a callable was called before the end of its scope");
                    statements(left - 1, depth_left, leave);
                });
            }
            return;
        }
        scope(k - nobj - 1, depth_left - 1);
        REQUIRE(g_log == g_want, "the calls at the end of a scope are wrong");
        statements(left - 1, depth_left, leave);
    }
    void scope(int s, int depth_left) {
        mc::log("{ %s: ", scope_name[s]);
        const int mark = next++;
        switch(s) {
            case s_block: {
                statements(width[depth_left], depth_left, [] {});
                break;
            }
            case s_break:
                for(int i = 0; i < 2; ++i) {
                    REQUIRE(i == 0, "harness: break does not leave");
                    bool out = false;
                    statements(width[depth_left], depth_left, [&] { out = true; });
                    if(out)
                        break;
                }
                break;
            case s_continue:
                for(int i = 0; i < 1; ++i) {
                    bool out = false;
                    ScopedDelegate d{[&] { note(mark); }};
                    statements(width[depth_left], depth_left, [&] { out = true; });
                    g_want.push_back(mark);
                    if(out)
                        continue;
                    note(777);
                }
                break;
            case s_goto: {
                {
                    ScopedDelegate d{[&] { note(mark); }};
                    statements(width[depth_left], depth_left, [] {});
                    g_want.push_back(mark);
                    goto out;
                }
                note(777);
            out:
                break;
            }
            case s_return: {
                int result = 3;
                auto fn    = [&]() -> int {
                    ScopedDelegate d{[&] { note(mark), result = 4; }};
                    statements(width[depth_left], depth_left, [] {});
                    g_want.push_back(mark);
                    return result;  // evaluated before the call
                };
                REQUIRE(fn() == 3 && result == 4, "a function runs before the return value is there, or not at all");
                break;
            }
            case s_try:
                try {
                    statements(width[depth_left], depth_left, [] {});
                }
                catch(...) {
                    note(777);
                }
                break;
            case s_throw:
                try {
                    ScopedDelegate d{[&] { note(mark); }};
                    statements(width[depth_left], depth_left, [&] {
                        throw Leave{mark};
                    });
                    note(777);
                }
                catch(Leave& l) {
                    g_want.push_back(mark);
                    REQUIRE(l.id == mark, "another exception arrives");
                    REQUIRE(g_log == g_want, "a handler runs before the calls at the end of the scope");
                }
                break;
            case s_switch:
                switch(mark) {
                    default: {
                        statements(width[depth_left], depth_left, [] {});
                        break;
                    }
                    case -1: break;
                }
                break;
        }
        mc::log("} ");
    }
};
static void programs(std::vector<int> objects, std::vector<int> width) {
    mc::dfs([&](mc::Choices& c) {
        g_log.clear();
        g_want.clear();
        g_copies = g_moves = g_want_copies = g_want_moves = 0;
        Program p{c, width, objects.data(), (int)objects.size()};
        p.statements(width.back(), (int)width.size() - 1, [] {});
        REQUIRE(g_log.size() == g_want.size(), "%zu events, expected %zu", g_log.size(), g_want.size());
        for(std::size_t i = 0; i < g_log.size(); ++i)
            REQUIRE(g_log[i] == g_want[i], "event %zu is %d, expected %d", i, g_log[i], g_want[i]);
        REQUIRE(g_functors.empty(), "%zu callables are left over", g_functors.size());
        REQUIRE(g_copies == g_want_copies && g_moves == g_want_moves, "%ld copies and %ld moves of callables, expected %ld and %ld", g_copies, g_moves, g_want_copies, g_want_moves);
        ++mc::st.states;
        mc::st.transitions += g_want.size();
        mc::st.max_depth = std::max<std::uint64_t>(mc::st.max_depth, c.taken.size());
        if(mc::st.states % 10007 == 9)
            mc::sample(mc::g_trail->log);
    });
}

// ---- other homes of a ScopedDelegate -----------------------------------------------------------------
#define once(...) once_(#__VA_ARGS__, {__VA_ARGS__})
static void once_(const char* text, std::initializer_list<bool> c) {
    int n = 0;
    for(bool ok : c)
        REQUIRE(++n && ok, "condition %d of: %s", n, text);
    mc::evaluated_once();
    ++mc::st.states;
    ++mc::st.transitions;
}
constexpr int constant(int k) {
    int v = 1;
    {
        auto f = [&] { v = v * 10 + 2; };
        ScopedDelegate a{f};
        ScopedDelegate b{[&] { v = v * 10 + 3; }};
        if(k == 1)
            return v;
        v = v * 10 + 4;
    }
    return v;
}
static_assert(constant(0) == 1432 && constant(1) == 1);
struct Boom {
    explicit Boom(bool b) {
        if(b)
            throw std::out_of_range("member");
    }
};
static void homes() {
    g_log.clear();
    auto drain = [&] { auto l = g_log; g_log.clear(); return l; };
    using L = std::vector<int>;
    for(int k = 0; k < 5; ++k) {
        mc::g_trail->loglen = 0;
        mc::log("id %d", k);
        g_plain_id = k;
        {
            ScopedDelegate d{&plain};
            once(drain() == L{});
        }
        once(drain() == L{k});
        {  // heap and optional
            auto p = std::make_unique<ScopedDelegate<Fn>>(Fn(k));
            std::optional<ScopedDelegate<Fn>> o;
            o.emplace(Fn(k + 1));
            once(drain() == L{});
            p.reset();
            once(drain() == L{k});
            o.emplace(Fn(k + 2));
            once(drain() == L{k + 1});
            o.reset();
            once(drain() == L{k + 2});
        }
        once(drain() == L{});
        {  // arrays
            ScopedDelegate<Fn> a[3] = {Fn(k), Fn(k + 1), Fn(k + 2)};
            once(drain() == L{});
        }
        once(drain() == (L{k + 2, k + 1, k}));
        {  // temporaries live to the end of the expression
            (ScopedDelegate{Fn(k)}, g_log.push_back(50));
            once(drain() == (L{50, k}));
            const ScopedDelegate<Fn>& extended = ScopedDelegate<Fn>(Fn(k));
            once(drain() == L{});
        }
        once(drain() == L{k});
        {  // returned without a copy
            auto make = [&](int i) { return ScopedDelegate<Fn>(Fn(i)); };
            auto d    = make(k);
            once(drain() == L{});
        }
        once(drain() == L{k});
        {  // members, also when a later member throws
            struct S {
                Guard g;
                ScopedDelegate<Fn> a, b;
                Boom boom;
            };
            {
                S s{{90}, Fn(k), Fn(k + 1), Boom(false)};
                once(drain() == L{});
            }
            once(drain() == (L{k + 1, k, 90}));
            bool threw = false;
            try {
                S s{{90}, Fn(k), Fn(k + 1), Boom(true)};
            }
            catch(const std::out_of_range&) {
                threw = true;
            }
            once(threw, drain() == (L{k + 1, k, 90}));
        }
        {  // while another exception is on its way
            bool threw = false;
            try {
                ScopedDelegate d{[&] {
                    g_log.push_back(std::uncaught_exceptions());
                    try {
                        ScopedDelegate e{Fn(k + 10)};
                        throw 1;
                    }
                    catch(int) {
                        g_log.push_back(60);
                    }
                }};
                throw std::out_of_range("outer");
            }
            catch(const std::out_of_range&) {
                threw = true;
            }
            once(threw, drain() == (L{1, k + 10, 60}));
        }
        {  // a callable that cannot be copied: the function is not called and the exception arrives
            Fn f(k);
            bool threw = false;
            g_fault    = 1;
            g_faulted  = false;
            try {
                ScopedDelegate d{f};
            }
            catch(const std::runtime_error&) {
                threw = true;
            }
            g_fault = 0;
            once(g_faulted, threw, drain() == L{}, f.id == k);
        }
        {  // references to the scope's variables are good while it runs
            int seen = 0;
            {
                std::string s = "text of the scope that is long enough to be on the heap";
                ScopedDelegate d{[&] { seen = (int)s.size(); }};
                s += std::to_string(k);
            }
            once(seen == 56);
        }
        once(g_functors.empty(), drain() == L{});
    }
    static_assert(!std::is_copy_constructible_v<ScopedDelegate<Fn>> && !std::is_move_constructible_v<ScopedDelegate<Fn>>);
    static_assert(!std::is_copy_assignable_v<ScopedDelegate<Fn>> && !std::is_move_assignable_v<ScopedDelegate<Fn>>);
    mc::sample("heap, optional, array, member, temporary, constant expression");
}

static void setup() {
    std::vector<int> all, few{o_fn_lvalue, o_fn_rvalue, o_guard};
    for(int i = 0; i < objs; ++i)
        all.push_back(i);
    const int t = mc::thorough;
    mc::add("objects", [=] { programs(all, {2, 2}); });
    mc::add("sequences", [=] { programs(all, {5 + t}); });
    mc::add("nesting", [=] { programs(few, {2, 2, 1}); });
    mc::add("deep", [=] { programs({o_fn_rvalue, o_fn_lvalue}, {2, 2, 1, 1}); });
    mc::add("wide", [=] { programs(few, {1, 3}); });
    if(t) {
        mc::add("wider", [=] { programs(few, {2, 3}); });
        mc::add("deeper", [=] { programs({o_fn_rvalue}, {1, 2, 1, 1, 1}); });
    }
    mc::add("homes", homes);
}
MC_MAIN(setup)
