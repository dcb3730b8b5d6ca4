// Operation histories over two LinkedLists in lockstep with reference sequences (properties C06, C07).
#pragma once
#include "types.hpp"
#include <forward_list>
#include <list>
#include <xme/container/linked_list.hpp>

namespace ls {
using tk::kMoved;
using namespace ty;
enum Mode { Seq, Life };
enum Kind : std::uint8_t {
    PushL, PushR, EmplaceFront, InsL, InsR, InsConv, InsSelf, InsSelfMove, PushSelf, EmplaceAfter, InsRange, InsRangeIt, EraseAfter, EraseRange, Pop, Clear, Reverse,
    CtorDefault, CtorN, CtorFill, CtorIter, CtorRange, CtorIl, CtorCopy, CtorMove, AsgCopy, AsgMove, AsgIl, AsgSelf, AssignIter, AssignRange, AssignIl, InsOnce, CtorOnce, AssignOnce, NKinds
};
inline const char* const names[] = {
  "push_front(const&)", "push_front(&&)", "emplace_front", "insert_after(const&)", "insert_after(&&)", "insert_after(convertible)", "insert_after(own element)", "insert_after(move(own element))", "push_front(own element)",
  "emplace_after", "insert_after(range)", "insert_after(first,last)", "erase_after(pos)", "erase_after(pos,last)", "pop_front", "clear", "reverse",
  "LinkedList()", "LinkedList(n)", "LinkedList(n,value)", "LinkedList(first,last)", "LinkedList(range)", "LinkedList(il)", "LinkedList(const&)", "LinkedList(&&)", "= const&", "= &&", "= il", "= itself",
  "assign(first,last)", "assign(range)", "assign(il)", "insert_after(single pass)", "LinkedList(single pass)", "assign(single pass)"};
struct Op {
    Kind k;
    std::uint8_t x;
    std::uint16_t i, j;
};
struct Cfg {
    unsigned max_size = 4, max_range = 2;
    bool two = true, lean = false;
};
template<typename T>
constexpr bool copyable = std::is_copy_constructible_v<T>;

template<typename T, typename Al, Mode M>
struct Sys {
    using List = xme::LinkedList<T, Al>;
    using It   = typename List::iterator;
    using CIt  = typename List::const_iterator;
    Cfg cfg;
    alignas(List) unsigned char mem[2][sizeof(List)];
    std::vector<int> ref[2];
    std::vector<const T*> addr[2];  // where each element lives; null when the operation may choose
    int fresh = 1;
    bool done = false;

    List& a(int x) { return *reinterpret_cast<List*>(mem[x]); }
    explicit Sys(Cfg c = {}) : cfg(c) {
        tk::reset_registry();
        ::new(mem[0]) List();
        ::new(mem[1]) List();
    }
    void finish() {
        if(done)
            return;
        done = true;
        a(0).~List();
        a(1).~List();
        if constexpr(M == Life)
            tk::expect_clean("after both lists are destroyed");
    }
    std::vector<Op> list() {
        std::vector<Op> o;
        for(int x = 0; x < (cfg.two ? 2 : 1); ++x) {
            const unsigned n = ref[x].size();
            const bool alt   = !cfg.lean || x == 0;
            auto add = [&](Kind k, unsigned i = 0, unsigned j = 0) { o.push_back({k, (std::uint8_t)x, (std::uint16_t)i, (std::uint16_t)j}); };
            // a position p is "after the first p elements": 0 is before_begin
            if(n < cfg.max_size) {
                add(PushR);
                if(alt) add(EmplaceFront);
                if constexpr(copyable<T>) if(alt) add(PushL);
                for(unsigned p = 0; p <= n; ++p) {
                    add(InsR, p);
                    if(alt) add(InsConv, p);
                    if(alt) add(EmplaceAfter, p);
                    if constexpr(copyable<T>) if(alt) add(InsL, p);
                    for(unsigned i = 0; i < n; ++i) {
                        if constexpr(copyable<T>) if(alt) add(InsSelf, p, i);
                        if(alt) add(InsSelfMove, p, i);
                    }
                }
                if constexpr(copyable<T>)
                    for(unsigned i = 0; i < n; ++i)
                        if(alt) add(PushSelf, i);
            }
            for(unsigned k = 0; k <= cfg.max_range && n + k <= cfg.max_size; ++k)
                for(unsigned p = 0; p <= n; ++p) {
                    add(InsRange, p, k);
                    if(alt) add(InsRangeIt, p, k);
                    if(alt) add(InsOnce, p, k);
                }
            for(unsigned p = 0; p < n; ++p)
                add(EraseAfter, p);
            for(unsigned p = 0; p <= n; ++p)
                for(unsigned q = p; q <= n; ++q)
                    add(EraseRange, p, q);
            if(n)
                add(Pop);
            add(Clear);
            add(Reverse);
            if(alt) {
                add(CtorDefault);
                for(unsigned c = 0; c <= cfg.max_range; ++c) {
                    if constexpr(std::is_default_constructible_v<T>) add(CtorN, c);
                    if constexpr(copyable<T>) add(CtorFill, c);
                    add(CtorIter, c);
                    add(CtorRange, c);
                    add(CtorOnce, c);
                }
                if constexpr(copyable<T>) add(CtorIl);
            }
            if constexpr(copyable<T>) {
                if(alt) add(AsgIl);
                if(alt) add(AsgSelf);
                add(CtorCopy);
                add(AsgCopy);
                for(unsigned c = 0; c <= cfg.max_size; ++c) {
                    if(alt) add(AssignIter, c);
                    if(alt) add(AssignRange, c);
                    if(alt && c < 3) add(AssignIl, c);
                    if(alt) add(AssignOnce, c);
                }
            }
            add(CtorMove);
            add(AsgMove);
        }
        return o;
    }
    std::uint32_t ops() { return list().size(); }
    bool apply(std::uint32_t idx) {
        auto l = list();
        if(idx >= l.size())
            return false;
        run(l[idx]);
        return true;
    }
    tk::Counters c0;
    void run(const Op& op) {
        OP("%c.%s i=%d j=%d   (size %zu)", "AB"[op.x], names[op.k], op.i, op.j, ref[op.x].size());
        c0 = tk::cnt;
        exec(op);
        check(op);
    }
    //! the iterator after the first p elements
    It at(int x, unsigned p) {
        It it = a(x).before_begin();
        for(; p; --p)
            ++it;
        return it;
    }
    T& nth(int x, unsigned i) { return *at(x, i + 1); }
    std::vector<int> news(unsigned k) {
        std::vector<int> v(k);
        for(auto& e : v)
            e = fresh++;
        return v;
    }
    void rins(int x, unsigned p, int v, const T* where = nullptr) {
        ref[x].insert(ref[x].begin() + p, v);
        addr[x].insert(addr[x].begin() + p, where);
    }
    void unknown(int x) { addr[x].assign(ref[x].size(), nullptr); }
    void rebuild(int x) {
        a(x).~List();
        ref[x].clear();
        addr[x].clear();
    }
    void inserted(int x, unsigned p, It it) {
        if constexpr(M == Seq)
            REQUIRE(it == at(x, p + 1), "the iterator returned does not refer to the new element");
        (void)it, (void)x, (void)p;
    }
    void exec(const Op& op) {
        const int x = op.x;
        List& A     = a(x);
        List& B     = a(1 - x);
        auto& R     = ref[x];
        switch(op.k) {
        case PushL:
            if constexpr(copyable<T>) {
                const T v(fresh++);
                rins(x, 0, tk::id(v));
                A.push_front(v);
            }
            break;
        case PushR: {
            T v(fresh++);
            rins(x, 0, tk::id(v));
            A.push_front(std::move(v));
            break;
        }
        case PushSelf:
            if constexpr(copyable<T>) {
                rins(x, 0, R[op.i]);
                A.push_front(std::as_const(nth(x, op.i)));
            }
            break;
        case EmplaceFront: {
            rins(x, 0, fresh);
            T& r = A.emplace_front(fresh++);
            if constexpr(M == Seq)
                REQUIRE(std::addressof(r) == std::addressof(A.front()), "emplace_front returned a reference to another element");
            break;
        }
        case EmplaceAfter:
            rins(x, op.i, fresh);
            inserted(x, op.i, A.emplace_after(at(x, op.i), fresh++));
            break;
        case InsL:
            if constexpr(copyable<T>) {
                const T v(fresh++);
                rins(x, op.i, tk::id(v));
                inserted(x, op.i, A.insert_after(at(x, op.i), v));
            }
            break;
        case InsR: {
            T v(fresh++);
            rins(x, op.i, tk::id(v));
            inserted(x, op.i, A.insert_after(CIt(at(x, op.i)), std::move(v)));
            break;
        }
        case InsConv: {
            int v = fresh++;
            rins(x, op.i, v);
            inserted(x, op.i, A.insert_after(at(x, op.i), v));
            break;
        }
        case InsSelf:
            if constexpr(copyable<T>) {
                rins(x, op.i, R[op.j]);
                inserted(x, op.i, A.insert_after(at(x, op.i), std::as_const(nth(x, op.j))));
            }
            break;
        case InsSelfMove: {
            int v = R[op.j];
            if(tk::marks_moved<T>)
                R[op.j] = kMoved;
            rins(x, op.i, v);
            inserted(x, op.i, A.insert_after(at(x, op.i), std::move(nth(x, op.j))));
            break;
        }
        case InsRange:
        case InsRangeIt: {
            auto v = news(op.j);
            for(unsigned i = 0; i < v.size(); ++i)
                rins(x, op.i + i, v[i]);
            It r;
            if(op.k == InsRangeIt) {
                std::forward_list<int> src(v.begin(), v.end());
                r = A.insert_after(at(x, op.i), src.begin(), src.end());
            }
            else if constexpr(copyable<T>) {
                std::list<T> src;
                for(int e : v)
                    src.emplace_back(e);
                r = A.insert_after(at(x, op.i), src);
            }
            else
                r = A.insert_after(at(x, op.i), v);
            if constexpr(M == Seq)
                REQUIRE(r == at(x, op.i + op.j), "the iterator returned does not refer to the last new element");
            break;
        }
        case InsOnce: {
            Once src{news(op.j)};
            for(unsigned i = 0; i < op.j; ++i)
                rins(x, op.i + i, src.v[i]);
            It r = op.j % 2 ? A.insert_after(at(x, op.i), src) : A.insert_after(at(x, op.i), src.begin(), src.end());
            if constexpr(M == Seq)
                REQUIRE(r == at(x, op.i + op.j), "the iterator returned does not refer to the last new element");
            break;
        }
        case CtorOnce: {
            rebuild(x);
            Once src{news(op.i)};
            if(op.i % 2)
                ::new(mem[x]) List(src);
            else
                ::new(mem[x]) List(src.begin(), src.end());
            R = src.v;
            unknown(x);
            break;
        }
        case AssignOnce:
            if constexpr(copyable<T>) {
                Once src{news(op.i)};
                if(op.i % 2)
                    A.assign(src);
                else
                    A.assign(src.begin(), src.end());
                R = src.v;
                unknown(x);
            }
            break;
        case EraseAfter:
            R.erase(R.begin() + op.i);
            addr[x].erase(addr[x].begin() + op.i);
            A.erase_after(at(x, op.i));
            break;
        case EraseRange: {  // the elements i..j-1: after position i, up to the one at j (exclusive)
            R.erase(R.begin() + op.i, R.begin() + op.j);
            addr[x].erase(addr[x].begin() + op.i, addr[x].begin() + op.j);
            It last = at(x, op.j);
            ++last;  // erase_after erases up to, not including, this one
            A.erase_after(at(x, op.i), last);
            break;
        }
        case Pop:
            R.erase(R.begin());
            addr[x].erase(addr[x].begin());
            A.pop_front();
            break;
        case Clear:
            R.clear();
            addr[x].clear();
            A.clear();
            break;
        case Reverse:
            std::reverse(R.begin(), R.end());
            std::reverse(addr[x].begin(), addr[x].end());
            A.reverse();
            break;
        case CtorDefault:
            rebuild(x);
            ::new(mem[x]) List();
            break;
        case CtorN:
            if constexpr(std::is_default_constructible_v<T>) {
                rebuild(x);
                R.assign(op.i, 0);
                ::new(mem[x]) List(std::size_t(op.i));
                unknown(x);
            }
            break;
        case CtorFill:
            if constexpr(copyable<T>) {
                rebuild(x);
                const T v(fresh++);
                ::new(mem[x]) List(std::size_t(op.i), v);
                R.assign(op.i, tk::id(v));
                unknown(x);
            }
            break;
        case CtorIter: {
            rebuild(x);
            auto v = news(op.i);
            std::forward_list<int> src(v.begin(), v.end());
            ::new(mem[x]) List(src.begin(), src.end());
            R = v;
            unknown(x);
            break;
        }
        case CtorRange: {
            rebuild(x);
            auto v = news(op.i);
            if constexpr(copyable<T>) {
                std::list<T> src;
                for(int e : v)
                    src.emplace_back(e);
                ::new(mem[x]) List(src);
            }
            else
                ::new(mem[x]) List(v);
            R = v;
            unknown(x);
            break;
        }
        case CtorIl:
            if constexpr(copyable<T>) {
                rebuild(x);
                ::new(mem[x]) List({T(fresh), T(fresh + 1), T(fresh)});
                R = {fresh, fresh + 1, fresh};
                fresh += 2;
                unknown(x);
            }
            break;
        case CtorCopy:
            if constexpr(copyable<T>) {
                rebuild(x);
                ::new(mem[x]) List(std::as_const(B));
                R = ref[1 - x];
                unknown(x);
            }
            break;
        case CtorMove:
            rebuild(x);
            ::new(mem[x]) List(std::move(B));
            std::swap(R, ref[1 - x]);
            std::swap(addr[x], addr[1 - x]);
            break;
        case AsgCopy:
            if constexpr(copyable<T>) {
                List& r = (A = std::as_const(B));
                REQUIRE(&r == &A, "assignment returned something else");
                R = ref[1 - x];
                unknown(x);
            }
            break;
        case AsgMove: {
            List& r = (A = std::move(B));
            REQUIRE(&r == &A, "assignment returned something else");
            R.clear();
            addr[x].clear();
            std::swap(R, ref[1 - x]);
            std::swap(addr[x], addr[1 - x]);
            break;
        }
        case AsgIl:
            if constexpr(copyable<T>) {
                A = {T(fresh), T(fresh + 1)};
                R = {fresh, fresh + 1};
                fresh += 2;
                unknown(x);
            }
            break;
        case AsgSelf:
            if constexpr(copyable<T>) {
                List& s = A;
                A       = s;
                unknown(x);
            }
            break;
        case AssignIter:
        case AssignRange:
            if constexpr(copyable<T>) {
                auto v = news(op.i);
                std::list<T> src;
                for(int e : v)
                    src.emplace_back(e);
                if(op.k == AssignIter)
                    A.assign(src.begin(), src.end());
                else
                    A.assign(src);
                R = v;
                unknown(x);
            }
            break;
        case AssignIl:
            if constexpr(copyable<T>) {
                auto v = news(op.i);
                switch(op.i) {
                case 0: A.assign(std::initializer_list<T>{}); break;
                case 1: A.assign({T(v[0])}); break;
                default: A.assign({T(v[0]), T(v[1])}); break;
                }
                R = v;
                unknown(x);
            }
            break;
        case NKinds: break;
        }
    }
    static std::string show(const std::vector<int>& v) {
        std::string s = "[";
        for(std::size_t i = 0; i < v.size() && i < 40; ++i)
            s += (i ? " " : "") + std::to_string(v[i]);
        return s + "]";
    }
    void check(const Op& op) {
        for(int y = 0; y < 2; ++y)
            check_one(y);
        if constexpr(M == Life) {
            std::size_t total = ref[0].size() + ref[1].size();
            REQUIRE(tk::live.n == total, "lifetime: %zu elements alive, the lists hold %zu", tk::live.n, total);
            REQUIRE(tk::blocks.size() == total, "allocation: %zu nodes allocated for %zu elements", tk::blocks.size(), total);
            switch(op.k) {
            case PushR: case EmplaceFront: case EmplaceAfter: case InsR: case InsConv: case InsSelfMove: case InsRangeIt: case EraseAfter: case EraseRange: case Pop: case Clear:
            case Reverse: case CtorIter: case CtorOnce: case InsOnce: case CtorMove: case AsgMove:
                if(!std::is_same_v<T, tk::CopyOnly>)
                    REQUIRE(tk::cnt.copies() == c0.copies(), "an element was copied by an operation that has nothing to copy");
                break;
            default: break;
            }
        }
    }
    void check_one(int y) {
        List& A       = a(y);
        const List& K = A;
        auto& R       = ref[y];
        auto& P       = addr[y];
        std::vector<int> got;
        std::vector<const T*> where;
        for(It it = A.begin(); it != A.end() && got.size() < 5000; ++it) {
            got.push_back(tk::id(*it));
            where.push_back(std::addressof(*it));
        }
        REQUIRE(got == R, "%c holds %s instead of %s", "AB"[y], show(got).c_str(), show(R).c_str());
        REQUIRE(A.empty() == R.empty() && K.empty() == R.empty(), "%c: empty()", "AB"[y]);
        for(std::size_t i = 0; i < R.size(); ++i)
            REQUIRE(!P[i] || P[i] == where[i], "%c: element %zu (%d) moved to another address", "AB"[y], i, R[i]);
        P = where;
        if constexpr(M == Seq) {
            if(!R.empty())
                REQUIRE(tk::id(A.front()) == R.front() && std::addressof(K.front()) == where[0], "%c: front()", "AB"[y]);
            std::size_t i = 0;
            CIt kit       = K.begin();
            CIt bb        = K.before_begin();
            REQUIRE(bb == CIt(A.before_begin()) && bb == K.cbefore_begin(), "%c: before_begin differs", "AB"[y]);
            ++bb;
            for(It it = A.begin(); it != A.end(); ++it, ++i) {
                REQUIRE(kit != K.end() && std::addressof(*kit) == where[i] && kit == CIt(it) && std::to_address(kit.operator->()) == where[i], "%c: const iteration at %zu", "AB"[y], i);
                REQUIRE(bb == kit, "%c: incrementing before_begin", "AB"[y]);
                CIt old = kit++;
                REQUIRE(std::addressof(*old) == where[i], "%c: post increment at %zu", "AB"[y], i);
                It m = it;
                REQUIRE(m++ == it && (i + 1 == R.size() ? m == A.end() : std::addressof(*m) == where[i + 1]), "%c: post increment at %zu", "AB"[y], i);
                REQUIRE(it.operator->() == where[i], "%c: -> at %zu", "AB"[y], i);
                ++bb;
            }
            REQUIRE(kit == K.end() && i == R.size(), "%c: const iteration length", "AB"[y]);
        }
    }
    std::string key() {
        std::string k;
        std::vector<int> map(fresh + 1, 0);
        int next = 1;
        for(int y = 0; y < 2; ++y) {
            k += (char)ref[y].size();
            for(int v : ref[y]) {
                if(v <= 0)
                    k += (char)(v < 0 ? 200 : 201);
                else {
                    if(!map[v])
                        map[v] = next++;
                    k += (char)map[v];
                }
            }
        }
        return k;
    }
    void shape(unsigned n, unsigned m) {
        for(int y = 0; y < 2; ++y)
            for(unsigned i = 0; i < (y ? m : n); ++i) {
                rins(y, 0, fresh);
                a(y).emplace_front(fresh++);
            }
        check_one(0);
        check_one(1);
    }
};
template<typename S>
void sweep(unsigned max_n, unsigned max_m, unsigned max_range) {
    for(unsigned n = 0; n <= max_n; ++n)
        for(unsigned m = 0; m <= max_m; ++m) {
            std::vector<Op> ops;
            {
                S s(Cfg{max_n + max_range + 1, max_range, false, false});
                s.shape(n, m);
                ops = s.list();
                s.finish();
            }
            ++mc::st.states;
            for(const Op& op : ops) {
                mc::begin_case();
                S s;
                OP("A has %u elements, B has %u", n, m);
                s.shape(n, m);
                s.run(op);
                s.finish();
                ++mc::st.execs;
                ++mc::st.transitions;
            }
        }
}
}  // namespace ls

namespace ls {
//! long lists: positions and counts at the ends and the middle
template<typename S>
void sweep_long(const std::vector<unsigned>& sizes) {
    for(unsigned n : sizes)
        for(unsigned m : {0u, 1u, n - 1, n, n + 1}) {
            std::vector<unsigned> pos{0, 1, n / 2, n - 1, n};
            std::vector<Op> ops;
            for(unsigned p : pos)
                for(unsigned k : {0u, 1u, n / 2, n, 2 * n + 1}) {
                    for(Kind o : {InsRange, InsRangeIt, InsOnce})
                        ops.push_back({o, 0, (std::uint16_t)p, (std::uint16_t)k});
                    if(p == 0)
                        for(Kind o : {CtorIter, CtorRange, CtorFill, AssignIter, AssignRange, AssignOnce})
                            ops.push_back({o, 0, (std::uint16_t)k, 0});
                }
            for(unsigned p : pos) {
                for(unsigned q : pos)
                    if(p <= q)
                        ops.push_back({EraseRange, 0, (std::uint16_t)p, (std::uint16_t)q});
                if(p < n)
                    ops.push_back({EraseAfter, 0, (std::uint16_t)p, 0});
                ops.push_back({InsR, 0, (std::uint16_t)p, 0});
            }
            for(Kind o : {Clear, Reverse, CtorCopy, CtorMove, AsgCopy, AsgMove, AsgIl, AsgSelf, Pop})
                ops.push_back({o, 0, 0, 0});
            ++mc::st.states;
            for(const Op& op : ops) {
                mc::begin_case();
                S s;
                OP("A has %u elements, B has %u", n, m);
                s.shape(n, m);
                s.run(op);
                s.finish();
                ++mc::st.execs;
                ++mc::st.transitions;
            }
        }
}
}  // namespace ls
