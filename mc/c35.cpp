// C35: what is put into a container is made from exactly the arguments given, as what they were given.
#include "mc.hpp"
#include <array>
#include <iterator>
#include <list>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <xme/container/aligned_data.hpp>
#include <xme/container/array.hpp>
#include <xme/container/container_policy.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/container/spsc_queue.hpp>

enum Kind { lvalue, const_lvalue, rvalue, const_rvalue };
static const char* kind_name[] = {"lvalue", "const lvalue", "rvalue", "const rvalue"};
template<typename A>
constexpr Kind kind_of = std::is_lvalue_reference_v<A> ? (std::is_const_v<std::remove_reference_t<A>> ? const_lvalue : lvalue)
                                                       : (std::is_const_v<std::remove_reference_t<A>> ? const_rvalue : rvalue);
//! passes x as Kind
template<Kind K, typename T>
constexpr decltype(auto) as(T& x) {
    if constexpr(K == lvalue)
        return static_cast<T&>(x);
    else if constexpr(K == const_lvalue)
        return static_cast<const T&>(x);
    else if constexpr(K == rvalue)
        return static_cast<T&&>(x);
    else
        return static_cast<const T&&>(x);
}
static int g_made, g_copies, g_moves, g_alive;
//! an argument: neither copied nor moved by anything
template<int I>
struct Arg {
    int key = 0;
    Arg()           = default;
    Arg(const Arg&) = delete;
};
//! converts to an element without being named
struct Conv {
    int key          = 0;
    Conv()           = default;
    Conv(const Conv&) = delete;
};
struct Elem {
    int n = 0, key = 0;
    const void* at[3]{};
    Kind kind[3]{};
    bool moved = false;
    Elem() { made(); }
    template<typename A>
        requires std::is_same_v<std::remove_cvref_t<A>, Arg<0>>
    explicit Elem(A&& a) : n(1), key(a.key), at{&a}, kind{kind_of<A>} {
        made();
    }
    template<typename A, typename B>
        requires std::is_same_v<std::remove_cvref_t<A>, Arg<0>> && std::is_same_v<std::remove_cvref_t<B>, Arg<1>>
    explicit Elem(A&& a, B&& b) : n(2), key(a.key), at{&a, &b}, kind{kind_of<A>, kind_of<B>} {
        made();
    }
    template<typename A, typename B, typename C>
        requires std::is_same_v<std::remove_cvref_t<A>, Arg<0>> && std::is_same_v<std::remove_cvref_t<B>, Arg<1>> && std::is_same_v<std::remove_cvref_t<C>, Arg<2>>
    explicit Elem(A&& a, B&& b, C&& c) : n(3), key(a.key), at{&a, &b, &c}, kind{kind_of<A>, kind_of<B>, kind_of<C>} {
        made();
    }
    template<typename A>
        requires std::is_same_v<std::remove_cvref_t<A>, Conv>
    Elem(A&& a) : n(1), key(a.key), at{&a}, kind{kind_of<A>} {
        made();
    }
    Elem(const Elem& o) : n(o.n), key(o.key), moved(o.moved) { take(o), ++g_copies, ++g_alive; }
    Elem(Elem&& o) noexcept : n(o.n), key(o.key), moved(o.moved) { take(o), o.moved = true, ++g_moves, ++g_alive; }
    Elem& operator=(const Elem& o) {
        n = o.n, key = o.key, moved = o.moved;
        take(o), ++g_copies;
        return *this;
    }
    Elem& operator=(Elem&& o) noexcept {
        const bool m = o.moved;
        n = o.n, key = o.key;
        take(o), o.moved = true, moved = m, ++g_moves;
        return *this;
    }
    ~Elem() { --g_alive; }
    void made() { ++g_made, ++g_alive; }
    void take(const Elem& o) {
        for(int i = 0; i < 3; ++i)
            at[i] = o.at[i], kind[i] = o.kind[i];
    }
};
struct ByKey {
    bool operator()(const Elem& a, const Elem& b) const { return a.key < b.key; }
};
//! never moved, nor copied
struct Still : Elem {
    using Elem::Elem;
    Still(const Still&) = delete;
};

// ---- the places an element can be put ----------------------------------------------------------------
// shapes: how many are there already and, where it matters, whether there is room and what the order is.
// put(f) has f put an element into the container and returns the element.
template<typename T>
struct IntoArray {
    static constexpr const char* name = "Array::emplace_back";
    static int shapes() { return 8; }
    static int moves(int s) { return s % 2 ? 0 : s / 2; }
    xme::Array<T> c;
    std::size_t before;
    explicit IntoArray(int s) {
        c.reserve(s / 2 + s % 2);  // odd: with room
        for(int i = 0; i < s / 2; ++i)
            c.emplace_back();
        before = c.size();
    }
    template<typename... A>
    const T* put(A&&... a) {
        T& r = c.emplace_back(std::forward<A>(a)...);
        REQUIRE(c.size() == before + 1 && &r == &c[before], "emplace_back refers to another element");
        return &r;
    }
};
template<typename T, bool Front>
struct IntoList {
    static constexpr const char* name = Front ? "LinkedList::emplace_front" : "LinkedList::emplace_after";
    static int shapes() { return Front ? 3 : 6; }
    static int moves(int) { return 0; }
    xme::LinkedList<T> c;
    int pos, n;
    explicit IntoList(int s) : pos(Front ? 0 : s == 0 ? 0 : s < 3 ? s - 1 : s - 3), n(Front ? s : s == 0 ? 0 : s < 3 ? 1 : 2) {
        for(int i = 0; i < n; ++i)
            c.emplace_front();
    }
    template<typename... A>
    const T* put(A&&... a) {
        auto it = c.before_begin();
        for(int i = 0; i < pos; ++i)
            ++it;
        if constexpr(Front) {
            T& r = c.emplace_front(std::forward<A>(a)...);
            REQUIRE(&r == &*c.begin(), "emplace_front refers to another element");
            return &r;
        }
        else {
            auto r = c.emplace_after(it, std::forward<A>(a)...);
            REQUIRE(r == ++it, "emplace_after refers to another element");
            return &*r;
        }
    }
};
template<typename T>
struct IntoHeap {
    static constexpr const char* name = "Heap::emplace";
    static int shapes() { return 5; }
    static int moves(int) { return -1; }
    xme::Heap<T, xme::Array<T>, ByKey> c;
    explicit IntoHeap(int s) {
        for(int i = 0; i < s; ++i) {
            Arg<0> a;
            a.key = -1 - i % 3;  // all but the last are outranked by what follows
            c.emplace(a);
        }
    }
    template<typename... A>
    const T* put(A&&... a) {
        c.emplace(std::forward<A>(a)...);
        return &c.front();
    }
};
template<typename T, typename Q, bool Full>
struct IntoQueue {
    static constexpr const char* name = Full ? "SPSCQueue::emplace when full" : "SPSCQueue::emplace";
    static int shapes() { return Full ? 4 : 7; }
    static int moves(int) { return 0; }
    Q c;
    int n;
    static Q make() {
        if constexpr(std::is_default_constructible_v<Q>)
            return Q();
        else
            return Q(4);
    }
    explicit IntoQueue(int s) : c(make()), n(Full ? 3 : s < 4 ? 0 : s < 6 ? 1 : 2) {
        for(int i = 0; i < (Full ? s : s < 4 ? s : s < 6 ? s - 4 : 1); ++i) {
            c.emplace();
            c.pop();
        }
        for(int i = 0; i < n; ++i)
            c.emplace();
    }
    const T* last = nullptr;
    Elem kept;
    template<typename... A>
    const Elem* put(A&&... a) {
        --g_alive, --g_made;  // (kept is not made by the queue)
        const bool ok = c.emplace(std::forward<A>(a)...);
        ++g_alive, ++g_made;
        REQUIRE(ok != Full, "emplace says %d", ok);
        if(Full)
            return nullptr;
        for(int i = 0; i < n; ++i)
            c.pop();
        c.consume([&](T&& e) {
            kept.n = e.n, kept.key = e.key;
            kept.take(e);
            REQUIRE(!e.moved, "the element has been moved from");
        });
        return &kept;
    }
};
template<typename T>
struct IntoData {
    static constexpr const char* name = "AlignedData";
    static int shapes() { return 1; }
    static int moves(int) { return 0; }
    explicit IntoData(int) {}
    alignas(64) unsigned char mem[256];
    template<typename... A>
    const T* put(A&&... a) {
        auto* d = ::new(mem) xme::AlignedData<T, 32>(std::forward<A>(a)...);
        return std::launder(d->data());
    }
};
static void counts(const char* what, int made, int copies, int moves_max) {
    REQUIRE(g_made == made, "%s: %d elements made from arguments instead of %d", what, g_made, made);
    REQUIRE(g_copies == copies, "%s: %d copies instead of %d", what, g_copies, copies);
    if(moves_max >= 0)
        REQUIRE(g_moves <= moves_max, "%s: %d moves instead of %d", what, g_moves, moves_max);
}
struct Run {
    const char* name;
    int shapes, n, combo;
    bool full;
    int (*moves)(int);  // of elements already there
};
//! one arity, one combination of kinds, all shapes; to compile as little as possible for each
static void emplace_run(const Run& r, void (*put)(int, Arg<0>&, Arg<1>&, Arg<2>&, void (*)(const Elem*, void*), void*)) {
    for(int s = 0; s < r.shapes; ++s) {
        mc::begin_case();
        const Kind k[] = {Kind(r.combo % 4), Kind(r.combo / 4 % 4), Kind(r.combo / 16 % 4)};
        OP("%s of %d arguments (%s, %s, %s) in shape %d", r.name, r.n, kind_name[k[0]], kind_name[k[1]], kind_name[k[2]], s);
        g_alive = 0;
        Arg<0> a;
        Arg<1> b;
        Arg<2> c;
        auto check = [&](const Elem* e) {
            REQUIRE(e->n == r.n && !e->moved, "the element is made from %d arguments", e->n);
            const void* at[] = {&a, &b, &c};
            for(int i = 0; i < r.n; ++i) {
                REQUIRE(e->at[i] == at[i], "argument %d is another object", i);
                REQUIRE(e->kind[i] == k[i], "argument %d, an %s, is passed as %s", i, kind_name[k[i]], kind_name[e->kind[i]]);
            }
        };
        put(s, a, b, c, [](const Elem* e, void* f) { (*static_cast<decltype(check)*>(f))(e); }, &check);
        counts(r.name, r.full ? 0 : 1, 0, r.moves ? r.moves(s) : -1);
        REQUIRE(g_alive == 0, "%d elements are left over", g_alive);
        ++mc::st.states, ++mc::st.transitions, ++mc::st.execs;
    }
}
template<typename Into, bool Full, int N, int Combo>
static void emplace_one() {
    emplace_run({Into::name, Into::shapes(), N, Combo, Full, [](int s) { return Into::moves(s); }}, [](int s, Arg<0>& a, Arg<1>& b, Arg<2>& c, void (*check)(const Elem*, void*), void* to) {
        constexpr Kind k0 = Kind(Combo % 4), k1 = Kind(Combo / 4 % 4), k2 = Kind(Combo / 16 % 4);
        Into into(s);
        g_made = g_copies = g_moves = 0;
        const Elem* e;
        if constexpr(N == 0)
            e = into.put();
        else if constexpr(N == 1)
            e = into.put(as<k0>(a));
        else if constexpr(N == 2)
            e = into.put(as<k0>(a), as<k1>(b));
        else
            e = into.put(as<k0>(a), as<k1>(b), as<k2>(c));
        if(!Full)
            check(e, to);
        if constexpr(requires { into.mem; })
            const_cast<Elem*>(e)->~Elem();
    });
}
template<typename Into, bool Full = false, bool Empty = true>
static void emplaces(std::string name) {
    mc::add("emplace." + name, [] {
        if constexpr(Empty)
            emplace_one<Into, Full, 0, 0>();
        [&]<int... I>(std::integer_sequence<int, I...>) { (emplace_one<Into, Full, 1, I>(), ...); }(std::make_integer_sequence<int, 4>{});
        [&]<int... I>(std::integer_sequence<int, I...>) { (emplace_one<Into, Full, 2, I>(), ...); }(std::make_integer_sequence<int, 16>{});
        [&]<int... I>(std::integer_sequence<int, I...>) { (emplace_one<Into, Full, 3, I>(), ...); }(std::make_integer_sequence<int, 64>{});
    });
}

// ---- values: an lvalue is copied once and kept, an rvalue moved and never copied, anything else converted in place
struct Seen {
    bool refused = false, moved = false;
    int key = 0;
    const void* at = nullptr;
    Kind kind{};
    void look(const Elem& e) { moved = e.moved, key = e.key, at = e.at[0], kind = e.kind[0]; }
};
template<bool Convert, Kind K, typename F>
static void value_one(const char* what, int shapes, F f) {
    for(int s = 0; s < shapes; ++s) {
        mc::begin_case();
        OP("%s of %s %s in shape %d", what, Convert ? "something convertible as" : "an element as", kind_name[K], s);
        g_alive = 0;
        {
            Arg<0> a;
            a.key = 7;
            Elem v(a);
            Conv c;
            c.key = 7;
            Seen seen;
            auto& arg = [&]() -> auto& {
                if constexpr(Convert)
                    return c;
                else
                    return v;
            }();
            f(s, arg, seen, [&](auto&& put, int others = -1) {  // (others: how many elements already there may be moved)
                g_made = g_copies = g_moves = 0;
                put();
                const bool ok = !seen.refused;
                counts(what, Convert && ok, !Convert && K != rvalue && ok, others < 0 ? -1 : others + (!Convert && K == rvalue));
            });
            REQUIRE(v.moved == (!Convert && K == rvalue && !seen.refused), "the value given is %s", v.moved ? "moved from" : "not moved from");
            REQUIRE(v.n == 1 && v.key == 7 && v.at[0] == &a, "the value given is changed");
            if(!seen.refused) {
                REQUIRE(seen.key == 7 && !seen.moved, "the element has key %d", seen.key);
                REQUIRE(seen.at == (Convert ? (const void*)&c : &a), "the element is made from another object");
                REQUIRE(seen.kind == (Convert ? K : lvalue), "the element is made from an %s", kind_name[seen.kind]);
            }
        }
        REQUIRE(g_alive == 0, "%d elements are left over", g_alive);
        ++mc::st.states, ++mc::st.transitions, ++mc::st.execs;
    }
}
//! F{}.template operator()<K>(shape, argument, seen, count): puts as<K>(argument), inside count
template<typename F>
static void values(std::string name, int shapes, F f) {
    mc::add("value." + name, [=] {
        [&]<int... I>(std::integer_sequence<int, I...>) {
            (value_one<false, Kind(I)>(name.c_str(), shapes, [&](auto&&... x) { f.template operator()<Kind(I)>(x...); }), ...);
            (value_one<true, Kind(I)>(name.c_str(), shapes, [&](auto&&... x) { f.template operator()<Kind(I)>(x...); }), ...);
        }(std::make_integer_sequence<int, 4>{});
    });
}
static void fill(xme::Array<Elem>& c, int n, int spare) {
    c.reserve(n + spare);
    for(int i = 0; i < n; ++i)
        c.emplace_back();
}
template<typename Q>
static void queue_values(std::string name) {
    //! shapes: two of the index, then full
    values(name, 5, []<Kind K>(int s, auto& v, Seen& seen, auto count) {
        auto q = IntoQueue<Elem, Q, false>::make();
        for(int i = 0; i < s % 4; ++i)
            q.emplace(), q.pop();
        if(s == 4)
            for(int i = 0; i < 3; ++i)
                q.emplace();
        count([&] { seen.refused = !q.push(as<K>(v)); }, 0);
        REQUIRE(seen.refused == (s == 4), "push says %d", !seen.refused);
        if(!seen.refused)
            q.consume([&](Elem&& e) { seen.look(e); });
    });
}

// ---- ranges: each element is made from its own once, moved from a range of rvalues, copied from a range of lvalues
enum Source { lvalues, const_lvalues, moved, converted, made_on_the_fly, initializers, once_only };
static const char* source_name[] = {"lvalues", "const lvalues", "rvalues", "something convertible", "values made on the fly", "an initializer list", "a single pass of rvalues"};
struct Stream {  // single pass
    struct It {
        using value_type        = Elem;
        using difference_type   = std::ptrdiff_t;
        using iterator_category = std::input_iterator_tag;
        using iterator_concept  = std::input_iterator_tag;
        Stream* o = nullptr;
        Elem&& operator*() const { return std::move((*o->v)[o->at]); }
        It& operator++() {
            ++o->at;
            return *this;
        }
        void operator++(int) { ++o->at; }
        bool operator==(std::default_sentinel_t) const { return o->at == o->v->size(); }
    };
    std::vector<Elem>* v;
    std::size_t at = 0;
    It begin() { return {this}; }
    std::default_sentinel_t end() { return {}; }
};
struct Maker {  // random access, giving prvalues
    struct It {
        using value_type        = Elem;
        using reference         = Elem;
        using difference_type   = std::ptrdiff_t;
        using iterator_category = std::input_iterator_tag;
        using iterator_concept  = std::forward_iterator_tag;
        using pointer           = void;
        Arg<0>* a = nullptr;
        Elem operator*() const { return Elem(*a); }
        It& operator++() {
            ++a;
            return *this;
        }
        It operator++(int) { return {a++}; }
        bool operator==(const It&) const = default;
    };
    Arg<0>* a;
    int n;
    It begin() const { return {a}; }
    It end() const { return {a + n}; }
};
constexpr int kMost = 5;
//! f(range or its ends, count): count(put, look) with look(i) the i-th element put
template<typename F>
static void sources(std::string name, int shapes, F f) {
    mc::add("range." + name, [=] {
        for(int src = 0; src < 7; ++src)
            for(int ends = 0; ends < 2; ++ends)
                for(int n = 0; n <= (mc::thorough ? kMost : 4); ++n)
                    for(int s = 0; s < shapes; ++s) {
                        mc::begin_case();
                        OP("%s of %d elements from %s%s in shape %d", name.c_str(), n, source_name[src], ends ? " by iterators" : "", s);
                        g_alive = 0;
                        {
                            std::array<Arg<0>, kMost> a;
                            std::vector<Elem> v;
                            std::array<Conv, kMost> c;
                            v.reserve(kMost);
                            for(int i = 0; i < n; ++i) {
                                a[i].key = c[i].key = 10 + i;
                                v.emplace_back(a[i]);
                            }
                            auto count = [&](auto&& put, auto&& look) {
                                g_made = g_copies = g_moves = 0;
                                put();
                                const bool copies = src == lvalues || src == const_lvalues || src == initializers;
                                counts(name.c_str(), src == converted || src == made_on_the_fly ? n : 0, copies ? n : 0, -1);
                                for(int i = 0; i < n; ++i) {
                                    const Elem& e = look(i);
                                    REQUIRE(e.key == 10 + i && !e.moved, "element %d has key %d%s", i, e.key, e.moved ? " and is moved from" : "");
                                    REQUIRE(e.at[0] == (src == converted ? (const void*)&c[i] : &a[i]), "element %d is made from another object", i);
                                    if(src != initializers) {
                                        REQUIRE(v[i].moved == (src == moved || src == once_only), "source element %d is %s", i, v[i].moved ? "moved from" : "not moved from");
                                        REQUIRE(v[i].key == 10 + i, "source element %d is changed", i);
                                    }
                                }
                            };
                            auto give = [&](auto&& r) {
                                if(ends)
                                    f(s, count, r.begin(), r.end());
                                else
                                    f(s, count, std::forward<decltype(r)>(r));
                            };
                            struct Moving {
                                std::vector<Elem>& v;
                                auto begin() const { return std::make_move_iterator(v.begin()); }
                                auto end() const { return std::make_move_iterator(v.end()); }
                            };
                            struct Converting {
                                Conv* c;
                                int n;
                                const Conv* begin() const { return c; }
                                const Conv* end() const { return c + n; }
                            };
                            switch(src) {
                            case lvalues: give(v); break;
                            case const_lvalues: give(std::as_const(v)); break;
                            case moved: give(Moving{v}); break;
                            case converted: give(Converting{c.data(), n}); break;
                            case made_on_the_fly: give(Maker{a.data(), n}); break;
                            case once_only: {
                                Stream st{&v};
                                give(st);
                                break;
                            }
                            case initializers: {
                                auto list = [&](std::initializer_list<Elem> l) { give(l); };
                                switch(n) {
                                case 0: list({}); break;
                                case 1: list({v[0]}); break;
                                case 2: list({v[0], v[1]}); break;
                                case 3: list({v[0], v[1], v[2]}); break;
                                case 4: list({v[0], v[1], v[2], v[3]}); break;
                                case 5: list({v[0], v[1], v[2], v[3], v[4]}); break;
                                }
                                break;
                            }
                            }
                        }
                        REQUIRE(g_alive == 0, "%d elements are left over", g_alive);
                        ++mc::st.states, ++mc::st.transitions, ++mc::st.execs;
                    }
    });
}
template<typename L>
static auto nth(L& l, int i) {
    auto it = l.begin();
    for(; i > 0; --i)
        ++it;
    return it;
}
template<typename C, typename... X>
constexpr bool makes = requires(X&&... x) { C(std::forward<X>(x)...); };

static void setup() {
    using SQ = xme::SPSCQueue<Elem, xme::Capacity<4>>;
    using DQ = xme::SPSCQueue<Elem>;
#if PART == 0
    emplaces<IntoArray<Elem>>("array");
    emplaces<IntoList<Elem, true>>("list_front");
    emplaces<IntoList<Elem, false>>("list_after");
    emplaces<IntoList<Still, false>>("list_immovable");
#elif PART == 1
    emplaces<IntoHeap<Elem>>("heap");
    emplaces<IntoQueue<Elem, SQ, false>>("static_queue");
#elif PART == 2
    emplaces<IntoQueue<Elem, DQ, false>>("dynamic_queue");
    emplaces<IntoQueue<Elem, SQ, true>, true>("static_queue_full");
    emplaces<IntoQueue<Elem, DQ, true>, true>("dynamic_queue_full");
    emplaces<IntoQueue<Still, xme::SPSCQueue<Still, xme::Capacity<4>>, false>>("queue_immovable");
    emplaces<IntoData<Elem>, false, false>("aligned_data");
    emplaces<IntoData<Still>, false, false>("aligned_data_immovable");

#elif PART == 3
    values("Array::push_back", 8, []<Kind K>(int s, auto& v, Seen& seen, auto count) {
        xme::Array<Elem> c;
        fill(c, s / 2, s % 2);
        count([&] { c.push_back(as<K>(v)); }, s % 2 ? 0 : s / 2);
        REQUIRE((int)c.size() == s / 2 + 1, "the array has %zu elements", c.size());
        seen.look(c.back());
    });
    values("Array::insert", 20, []<Kind K>(int s, auto& v, Seen& seen, auto count) {
        const int n = s / 2 < 1 ? 0 : s / 2 < 3 ? 1 : s / 2 < 6 ? 2 : 3, pos = s / 2 - n * (n + 1) / 2;
        xme::Array<Elem> c;
        fill(c, n, s % 2 * 2);
        count([&] { seen.look(*c.insert(c.begin() + pos, as<K>(v))); }, pos == n ? (s % 2 ? 0 : n) : -1);
        REQUIRE((int)c.size() == n + 1, "the array has %zu elements", c.size());
    });
    values("LinkedList::push_front", 3, []<Kind K>(int s, auto& v, Seen& seen, auto count) {
        xme::LinkedList<Elem> c;
        for(int i = 0; i < s; ++i)
            c.emplace_front();
        if constexpr(std::is_same_v<std::remove_cvref_t<decltype(v)>, Conv>)
            count([&] { c.emplace_front(as<K>(v)); }, 0);  // (push_front takes elements)
        else
            count([&] { c.push_front(as<K>(v)); }, 0);
        seen.look(*c.begin());
    });
    values("LinkedList::insert_after", 6, []<Kind K>(int s, auto& v, Seen& seen, auto count) {
        const int n = s == 0 ? 0 : s < 3 ? 1 : 2, pos = s == 0 ? 0 : s < 3 ? s - 1 : s - 3;
        xme::LinkedList<Elem> c;
        for(int i = 0; i < n; ++i)
            c.emplace_front();
        auto it = c.before_begin();
        for(int i = 0; i < pos; ++i)
            ++it;
        count([&] { seen.look(*c.insert_after(it, as<K>(v))); }, 0);
    });
    values("Heap::push", 5, []<Kind K>(int s, auto& v, Seen& seen, auto count) {
        xme::Heap<Elem, xme::Array<Elem>, ByKey> c;
        for(int i = 0; i < s; ++i)
            c.emplace();
        count([&] { c.push(as<K>(v)); });
        seen.look(c.front());
    });
    queue_values<SQ>("static_queue");
    queue_values<DQ>("dynamic_queue");

    mc::add("whole.Array", [] {
        for(int n = 0; n < 6; ++n)
            for(int spare = 0; spare < 3; ++spare)
                for(int what = 0; what < 10; ++what) {
                    mc::begin_case();
                    static const char* ops[] = {"copy construction", "move construction", "copy assignment", "move assignment", "swap", "reserve", "resize to more", "resize to less", "erase", "clear"};
                    OP("%s of an Array of %d elements and room for %d", ops[what], n, spare);
                    g_alive = 0;
                    {
                        xme::Array<Elem> a, b;
                        fill(a, n, spare);
                        fill(b, 2, 1);
                        g_made = g_copies = g_moves = 0;
                        int copies = 0, moves = 0;
                        switch(what) {
                        case 0: { xme::Array<Elem> c(a); copies = n; break; }
                        case 1: { xme::Array<Elem> c(std::move(a)); break; }
                        case 2: b = a; copies = n; break;
                        case 3: b = std::move(a); break;
                        case 4: a.swap(b); break;
                        case 5: a.reserve(n + spare + 1); moves = n; break;
                        case 6: a.resize(n + spare + 1); moves = n; break;
                        case 7: if(n) { a.resize(n - 1); moves = n - 1; } break;
                        case 8: if(n) { a.erase(a.begin()); moves = n - 1; } break;
                        case 9: a.clear(); break;
                        }
                        counts(ops[what], 0, copies, moves);
                    }
                    REQUIRE(g_alive == 0, "%d elements are left over", g_alive);
                    ++mc::st.states, ++mc::st.transitions, ++mc::st.execs;
                }
    });
    mc::add("whole.LinkedList", [] {
        for(int n = 0; n < 6; ++n)
            for(int m = 0; m < 6; ++m)
                for(int what = 0; what < 8; ++what) {
                    mc::begin_case();
                    static const char* ops[] = {"copy construction", "move construction", "copy assignment", "move assignment", "reverse", "erase_after", "pop_front", "clear"};
                    OP("%s of a LinkedList of %d elements, the other of %d", ops[what], n, m);
                    g_alive = 0;
                    {
                        xme::LinkedList<Elem> a(n), b(m);
                        g_made = g_copies = g_moves = 0;
                        int copies = 0;
                        switch(what) {
                        case 0: { xme::LinkedList<Elem> c(a); copies = n; break; }
                        case 1: { xme::LinkedList<Elem> c(std::move(a)); break; }
                        case 2: b = a; copies = n; break;
                        case 3: b = std::move(a); break;
                        case 4: a.reverse(); break;
                        case 5: a.erase_after(a.before_begin(), a.end()); break;
                        case 6: if(n) a.pop_front(); break;
                        case 7: a.clear(); break;
                        }
                        counts(ops[what], 0, copies, 0);
                    }
                    REQUIRE(g_alive == 0, "%d elements are left over", g_alive);
                    ++mc::st.states, ++mc::st.transitions, ++mc::st.execs;
                }
    });
#else
    sources("Array_constructor", 1, [](int, auto count, auto&&... r) {
        using C = xme::Array<Elem>;
        C c;
        count([&] { C(std::forward<decltype(r)>(r)...).swap(c); }, [&](int i) -> const Elem& { return c[i]; });
    });
    sources("Array::push_back", 6, [](int s, auto count, auto&&... r) {
        xme::Array<Elem> c;
        fill(c, s / 2, s % 2 * 8);
        count([&] { c.push_back(std::forward<decltype(r)>(r)...); }, [&](int i) -> const Elem& { return c[s / 2 + i]; });
    });
    sources("Array::insert", 20, [](int s, auto count, auto&&... r) {
        const int n = s / 2 < 1 ? 0 : s / 2 < 3 ? 1 : s / 2 < 6 ? 2 : 3, pos = s / 2 - n * (n + 1) / 2;
        xme::Array<Elem> c;
        fill(c, n, s % 2 * 8);
        count([&] { c.insert(c.begin() + pos, std::forward<decltype(r)>(r)...); }, [&](int i) -> const Elem& { return c[pos + i]; });
    });
    sources("LinkedList_constructor", 1, [](int, auto count, auto&&... r) {
        xme::LinkedList<Elem> c;
        count([&] { c = xme::LinkedList<Elem>(std::forward<decltype(r)>(r)...); }, [&](int i) -> const Elem& { return *nth(c, i); });
    });
    sources("LinkedList::insert_after", 6, [](int s, auto count, auto&&... r) {
        const int n = s == 0 ? 0 : s < 3 ? 1 : 2, pos = s == 0 ? 0 : s < 3 ? s - 1 : s - 3;
        xme::LinkedList<Elem> c;
        for(int i = 0; i < n; ++i)
            c.emplace_front();
        auto it = c.before_begin();
        for(int i = 0; i < pos; ++i)
            ++it;
        count([&] { c.insert_after(it, std::forward<decltype(r)>(r)...); }, [&](int i) -> const Elem& { return *nth(c, pos + i); });
    });
    sources("LinkedList::assign", 7, [](int s, auto count, auto&&... r) {
        xme::LinkedList<Elem> c;
        for(int i = 0; i < s; ++i)
            c.emplace_front();
        if constexpr(requires(const Elem& e) { c.assign(std::forward<decltype(r)>(r)...); })
            count([&] { c.assign(std::forward<decltype(r)>(r)...); }, [&](int i) -> const Elem& { return *nth(c, i); });
    });
    sources("Heap_constructor", 1, [](int, auto count, auto&&... r) {
        xme::Heap<Elem, xme::Array<Elem>, ByKey>* p = nullptr;
        std::vector<const Elem*> by(kMost);
        count([&] { p = new xme::Heap<Elem, xme::Array<Elem>, ByKey>(std::forward<decltype(r)>(r)...); 
                    for(auto it = p->begin(); it != p->end(); ++it) by[it->key - 10] = &*it; },
              [&](int i) -> const Elem& { return *by[i]; });
        delete p;
    });
#endif
}
MC_MAIN(setup)
