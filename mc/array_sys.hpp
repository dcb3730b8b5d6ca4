// Operation histories over two Arrays in lockstep with reference sequences (properties C01, C02, C03).
#pragma once
#include "types.hpp"
#include <algorithm>
#include <forward_list>
#include <list>
#include <xme/container/array.hpp>

namespace as {
using tk::kMoved;
using namespace ty;
enum Mode { Seq, Life, Cap };
enum Kind : std::uint8_t {
    PushL, PushR, Emplace, PushConv, PushSelf, PushSelfMove, EmplaceSelf, PushRangeL, PushRange2,
    InsL, InsR, InsConv, InsSelf, InsSelfMove, InsRange, InsRangeIt, PushOnce, InsOnce, EraseAt, EraseRange, Pop, Clear, Reserve, Resize,
    CtorDefault, CtorCap, CtorFill, CtorIter, CtorRange, CtorOnce, CtorIl, CtorCopy, CtorMove, CtorAlloc, AsgCopy, AsgMove, AsgIl, AsgSelf, Swap, FreeSwap, NKinds
};
inline const char* const names[] = {
  "push_back(const&)", "push_back(&&)", "emplace_back(a,b)", "push_back(convertible)", "push_back(own element)", "push_back(move(own element))", "emplace_back(own element)", "push_back(range)", "push_back(first,last)",
  "insert(const&)", "insert(&&)", "insert(convertible)", "insert(own element)", "insert(move(own element))", "insert(range)", "insert(first,last)", "push_back(single pass)", "insert(single pass)", "erase(pos)", "erase(first,last)", "pop_back", "clear", "reserve", "resize",
  "Array()", "Array(n)", "Array(n,value)", "Array(first,last)", "Array(range)", "Array(single pass)", "Array(il)", "Array(const Array&)", "Array(Array&&)", "Array(alloc)", "= const Array&", "= Array&&", "= il", "= itself", "swap", "ranges swap"};
struct Op {
    Kind k;
    std::uint8_t x;
    std::uint16_t i, j;
};
struct Cfg {
    unsigned max_size = 4, max_spare = 3, max_range = 2;
    bool two = true;         // two arrays
    bool lean = false;       // fewer variants of the same path
};

template<typename T>
constexpr bool copyable = std::is_copy_constructible_v<T>;
//! a moved from element shows it
template<typename T>
constexpr bool marks_moved = tk::marks_moved<T>;

template<typename T, typename Al, Mode M>
struct Sys {
    using Arr = xme::Array<T, Al>;
    Cfg cfg;
    alignas(Arr) unsigned char mem[2][sizeof(Arr)];
    std::vector<int> ref[2];
    int want_alloc[2] = {0, 0};
    int fresh         = 1;

    Arr& a(int x) { return *reinterpret_cast<Arr*>(mem[x]); }
    explicit Sys(Cfg c = {}) : cfg(c) {
        tk::reset_registry();
        make(0, 1);
        make(1, 2);
    }
    void make(int x, int alloc_id) {
        ::new(mem[x]) Arr(al(alloc_id));
        want_alloc[x] = alloc_id;
        ref[x].clear();
    }
    static Al al(int id) {
        if constexpr(std::is_constructible_v<Al, int>)
            return Al(id);
        else
            return Al();
    }
    static int aid(const Al& al_) {
        if constexpr(requires { al_.aid; })
            return al_.aid;
        else
            return 0;
    }
    bool done = false;
    void finish() {
        if(done)
            return;
        done = true;
        a(0).~Arr();
        a(1).~Arr();
        if constexpr(M == Life)
            tk::expect_clean("after both arrays are destroyed");
    }

    // the operations possible in the current state, simplest first
    std::vector<Op> list() {
        std::vector<Op> o;
        for(int x = 0; x < (cfg.two ? 2 : 1); ++x) {
            Arr& A             = a(x);
            Arr& B             = a(1 - x);
            const unsigned n   = A.size(), cap = A.capacity();
            const bool room    = n < cfg.max_size;
            auto add           = [&](Kind k, unsigned i = 0, unsigned j = 0) { o.push_back({k, (std::uint8_t)x, (std::uint16_t)i, (std::uint16_t)j}); };
            const bool alt     = !cfg.lean || x == 0;
            if(room) {
                add(PushR);
                if(alt) add(Emplace);
                if(alt) add(PushConv);
                if constexpr(copyable<T>) add(PushL);
                for(unsigned i = 0; i < n; ++i) {
                    if constexpr(copyable<T>) add(PushSelf, i);
                    if(alt) add(PushSelfMove, i);
                    if constexpr(copyable<T>) if(alt) add(EmplaceSelf, i);
                }
                for(unsigned p = 0; p <= n; ++p) {
                    add(InsR, p);
                    if constexpr(copyable<T>) if(alt) add(InsL, p);
                    if(alt) add(InsConv, p);
                    for(unsigned i = 0; i < n; ++i) {
                        if constexpr(copyable<T>) add(InsSelf, p, i);
                        if(alt) add(InsSelfMove, p, i);
                    }
                }
            }
            for(unsigned k = 0; k <= cfg.max_range && n + k <= cfg.max_size; ++k) {
                add(PushRangeL, k);
                if(alt) add(PushRange2, k);
                if(alt) add(PushOnce, k);
                for(unsigned p = 0; p <= n; ++p) {
                    add(InsRange, p, k);
                    if(alt) add(InsRangeIt, p, k);
                    if(alt) add(InsOnce, p, k);
                }
            }
            for(unsigned p = 0; p < n; ++p)
                add(EraseAt, p);
            for(unsigned p = 0; p <= n; ++p)
                for(unsigned q = p; q <= n; ++q)
                    add(EraseRange, p, q);
            if(n)
                add(Pop);
            add(Clear);
            for(unsigned c : {0u, n, cap, cap + 1, n + cfg.max_spare})
                if(c <= n + cfg.max_spare)
                    add(Reserve, c);
            for(unsigned c = 0; c <= n + cfg.max_spare; ++c)
                add(Resize, c);
            if(alt) {
                add(CtorDefault);
                add(CtorAlloc);
                for(unsigned c = 0; c <= cfg.max_spare; ++c)
                    add(CtorCap, c);
                for(unsigned c = 0; c <= cfg.max_range; ++c) {
                    if constexpr(copyable<T>) add(CtorFill, c);
                    add(CtorIter, c);
                    add(CtorRange, c);
                    add(CtorOnce, c);
                }
                if constexpr(copyable<T>) add(CtorIl);
            }
            if constexpr(copyable<T>) add(AsgIl, 0);
            if constexpr(copyable<T>) if(alt) add(AsgIl, 1);
            if constexpr(copyable<T>) {
                add(CtorCopy);
                add(AsgCopy);
                if(alt) add(AsgSelf);
            }
            add(CtorMove);
            add(AsgMove);
            if(x == 0) {
                add(Swap);
                add(FreeSwap);
            }
            (void)B;
        }
        return o;
    }
    std::uint32_t ops() { return list().size(); }

    struct Snap {
        T* data;
        std::size_t size, cap;
        int aid;
    } pre[2];
    tk::Counters c0;

    bool apply(std::uint32_t idx) {
        auto l = list();
        if(idx >= l.size())
            return false;
        run(l[idx]);
        return true;
    }
    void run(const Op& op) {
        const int x = op.x;
        OP("%c.%s i=%d j=%d   (size %zu, capacity %zu)", "AB"[x], names[op.k], op.i, op.j, a(x).size(), a(x).capacity());
        for(int y = 0; y < 2; ++y)
            pre[y] = {std::to_address(a(y).begin()), a(y).size(), a(y).capacity(), 0};
        c0 = tk::cnt;
        exec(op);
        check(op);
    }
    std::vector<int> news(unsigned k) {
        std::vector<int> v(k);
        for(auto& e : v)
            e = fresh++;
        return v;
    }
    void exec(const Op& op) {
        const int x = op.x;
        Arr &A = a(x), &B = a(1 - x);
        auto &R = ref[x], &S = ref[1 - x];
        auto at    = [&](unsigned p) { return typename Arr::const_iterator(A.begin() + p); };
        auto rins  = [&](unsigned p, int v) { R.insert(R.begin() + p, v); };
        auto insres = [&](auto it, unsigned p) {
            if constexpr(M == Seq) {
                static_assert(std::is_same_v<decltype(it), typename Arr::iterator>);
                REQUIRE(it - A.begin() == (std::ptrdiff_t)p, "insert returned position %td instead of %u", it - A.begin(), p);
            }
        };
        switch(op.k) {
        case PushL:
            if constexpr(copyable<T>) {
                const T v(fresh++);
                R.push_back(tk::id(v));
                A.push_back(v);
            }
            break;
        case PushR: {
            T v(fresh++);
            R.push_back(tk::id(v));
            A.push_back(std::move(v));
            break;
        }
        case Emplace:
            if constexpr(std::is_constructible_v<T, int, int>) {
                R.push_back(fresh);
                T& r = A.emplace_back(fresh - 1, 1);
                ++fresh;
                if constexpr(M == Seq)
                    REQUIRE(std::addressof(r) == std::addressof(A.back()), "emplace_back returned a reference to another element");
            }
            else {
                R.push_back(fresh);
                T& r = A.emplace_back(fresh++);
                if constexpr(M == Seq)
                    REQUIRE(std::addressof(r) == std::addressof(A.back()), "emplace_back returned a reference to another element");
            }
            break;
        case PushConv: {
            R.push_back(fresh);
            A.push_back(int(fresh));
            ++fresh;
            break;
        }
        case PushSelf:
            if constexpr(copyable<T>) {
                R.push_back(R[op.i]);
                A.push_back(A[op.i]);
            }
            break;
        case EmplaceSelf:
            if constexpr(copyable<T>) {
                R.push_back(R[op.i]);
                T& r = A.emplace_back(std::as_const(A)[op.i]);
                if constexpr(M == Seq)
                    REQUIRE(std::addressof(r) == std::addressof(A.back()), "emplace_back returned a reference to another element");
            }
            break;
        case PushSelfMove: {
            int v = R[op.i];
            if(marks_moved<T>)
                R[op.i] = kMoved;
            R.push_back(v);
            A.push_back(std::move(A[op.i]));
            break;
        }
        case PushRangeL: {
            auto v = news(op.i);
            R.insert(R.end(), v.begin(), v.end());
            if constexpr(copyable<T>) {
                std::vector<T> src;
                src.reserve(v.size() + 1);
                for(int e : v)
                    src.emplace_back(e);
                A.push_back(src);
            }
            else
                A.push_back(v);
            break;
        }
        case PushRange2: {
            auto v = news(op.i);
            R.insert(R.end(), v.begin(), v.end());
            std::forward_list<int> src(v.begin(), v.end());
            A.push_back(src.begin(), src.end());
            break;
        }
        case PushOnce: {
            Once src{news(op.i)};
            R.insert(R.end(), src.v.begin(), src.v.end());
            if(op.i % 2)
                A.push_back(src);
            else
                A.push_back(src.begin(), src.end());
            break;
        }
        case InsOnce: {
            Once src{news(op.j)};
            R.insert(R.begin() + op.i, src.v.begin(), src.v.end());
            if(op.j % 2)
                insres(A.insert(at(op.i), src), op.i);
            else
                insres(A.insert(at(op.i), src.begin(), src.end()), op.i);
            break;
        }
        case InsL:
            if constexpr(copyable<T>) {
                const T v(fresh++);
                rins(op.i, tk::id(v));
                insres(A.insert(at(op.i), v), op.i);
            }
            break;
        case InsR: {
            T v(fresh++);
            rins(op.i, tk::id(v));
            insres(A.insert(at(op.i), std::move(v)), op.i);
            break;
        }
        case InsConv: {
            int v = fresh++;
            rins(op.i, v);
            insres(A.insert(at(op.i), v), op.i);
            break;
        }
        case InsSelf:
            if constexpr(copyable<T>) {
                rins(op.i, R[op.j]);
                insres(A.insert(at(op.i), A[op.j]), op.i);
            }
            break;
        case InsSelfMove: {
            int v = R[op.j];
            if(marks_moved<T>)
                R[op.j] = kMoved;
            rins(op.i, v);
            insres(A.insert(at(op.i), std::move(A[op.j])), op.i);
            break;
        }
        case InsRange: {
            auto v = news(op.j);
            R.insert(R.begin() + op.i, v.begin(), v.end());
            if constexpr(copyable<T>) {
                std::list<T> src;
                for(int e : v)
                    src.emplace_back(e);
                insres(A.insert(at(op.i), src), op.i);
            }
            else
                insres(A.insert(at(op.i), v), op.i);
            break;
        }
        case InsRangeIt: {
            auto v = news(op.j);
            R.insert(R.begin() + op.i, v.begin(), v.end());
            insres(A.insert(at(op.i), v.data(), v.data() + v.size()), op.i);
            break;
        }
        case EraseAt: {
            R.erase(R.begin() + op.i);
            auto it = A.erase(at(op.i));
            if constexpr(M == Seq)
                REQUIRE(it - A.begin() == (std::ptrdiff_t)op.i, "erase returned position %td instead of %u", it - A.begin(), op.i);
            break;
        }
        case EraseRange: {
            R.erase(R.begin() + op.i, R.begin() + op.j);
            auto it = A.erase(at(op.i), at(op.j));
            if constexpr(M == Seq)
                REQUIRE(it - A.begin() == (std::ptrdiff_t)op.i, "erase returned position %td instead of %u", it - A.begin(), op.i);
            break;
        }
        case Pop:
            R.pop_back();
            A.pop_back();
            break;
        case Clear:
            R.clear();
            A.clear();
            break;
        case Reserve: A.reserve(op.i); break;
        case Resize:
            if(R.size() > op.i)
                R.resize(op.i);
            A.resize(op.i);
            break;
        case CtorDefault:
            R.clear();
            A.~Arr();
            ::new(mem[x]) Arr();
            want_alloc[x] = 0;
            break;
        case CtorAlloc:
            A.~Arr();
            make(x, 5);
            break;
        case CtorCap:
            R.clear();
            A.~Arr();
            ::new(mem[x]) Arr(std::size_t(op.i), al(6));
            want_alloc[x] = 6;
            break;
        case CtorFill:
            if constexpr(copyable<T>) {
                A.~Arr();
                const T v(fresh++);
                R.assign(op.i, tk::id(v));
                ::new(mem[x]) Arr(std::size_t(op.i), v, al(7));
                want_alloc[x] = 7;
            }
            break;
        case CtorIter: {
            A.~Arr();
            R = news(op.i);
            std::forward_list<int> src(R.begin(), R.end());
            ::new(mem[x]) Arr(src.begin(), src.end(), al(8));
            want_alloc[x] = 8;
            break;
        }
        case CtorRange: {
            A.~Arr();
            R = news(op.i);
            if constexpr(copyable<T>) {
                std::list<T> src;
                for(int e : R)
                    src.emplace_back(e);
                ::new(mem[x]) Arr(src, al(9));
            }
            else
                ::new(mem[x]) Arr(std::vector<int>(R), al(9));
            want_alloc[x] = 9;
            break;
        }
        case CtorOnce: {
            A.~Arr();
            Once src{R = news(op.i)};
            if(op.i % 2)
                ::new(mem[x]) Arr(src, al(9));
            else
                ::new(mem[x]) Arr(src.begin(), src.end(), al(9));
            want_alloc[x] = 9;
            break;
        }
        case CtorIl:
            if constexpr(copyable<T>) {
                A.~Arr();
                R = {fresh, fresh + 1, fresh};
                ::new(mem[x]) Arr({T(fresh), T(fresh + 1), T(fresh)}, al(10));
                fresh += 2;
                want_alloc[x] = 10;
            }
            break;
        case CtorCopy:
            if constexpr(copyable<T>) {
                A.~Arr();
                R = S;
                ::new(mem[x]) Arr(std::as_const(B));
                want_alloc[x] = want_alloc[1 - x];
            }
            break;
        case CtorMove:
            A.~Arr();
            R = S;
            S.clear();
            ::new(mem[x]) Arr(std::move(B));
            want_alloc[x] = want_alloc[1 - x];
            break;
        case AsgCopy:
            if constexpr(copyable<T>) {
                R = S;
                Arr& r = (A = std::as_const(B));
                if constexpr(M == Seq)
                    REQUIRE(&r == &A, "assignment returned something else");
                want_alloc[x] = -1;  // either allocator may be used from here on
            }
            break;
        case AsgMove: {
            R = S;
            S.clear();
            Arr& r = (A = std::move(B));
            if constexpr(M == Seq)
                REQUIRE(&r == &A, "assignment returned something else");
            want_alloc[x]     = want_alloc[1 - x];
            want_alloc[1 - x] = -1;
            break;
        }
        case AsgIl:
            if constexpr(copyable<T>) {
                if(op.i == 0) {
                    R = {};
                    A = std::initializer_list<T>{};
                }
                else {
                    R = {fresh, fresh + 1};
                    A = {T(fresh), T(fresh + 1)};
                    fresh += 2;
                }
            }
            break;
        case AsgSelf:
            if constexpr(copyable<T>) {
                Arr& s = A;
                A      = s;
            }
            break;
        case Swap:
            std::swap(R, S);
            A.swap(B);
            std::swap(want_alloc[0], want_alloc[1]);
            break;
        case FreeSwap:
            std::swap(R, S);
            std::ranges::swap(A, B);
            std::swap(want_alloc[0], want_alloc[1]);
            break;
        case NKinds: break;
        }
    }
    static std::string show(const std::vector<int>& v) {
        std::string s = "[";
        for(std::size_t i = 0; i < v.size() && i < 40; ++i)
            s += (i ? " " : "") + std::to_string(v[i]);
        return s + "]";
    }
    void check(const Op& op) {
        if constexpr(M == Seq)
            for(int y = 0; y < 2; ++y)
                check_seq(y);
        if constexpr(M == Life)
            for(int y = 0; y < 2; ++y)
                check_life(y, op);
        if constexpr(M == Cap)
            check_cap(op);
    }
    void check_seq(int y) {
        Arr& A       = a(y);
        const Arr& K = A;
        auto& R      = ref[y];
        std::vector<int> got;
        for(auto it = A.begin(); it != A.end() && got.size() < 5000; ++it)
            got.push_back(tk::id(*it));
        const bool cnull = std::is_arithmetic_v<T>;
        (void)cnull;
        REQUIRE(got == R, "%c holds %s instead of %s", "AB"[y], show(got).c_str(), show(R).c_str());
        REQUIRE(A.size() == R.size() && K.size() == R.size(), "%c: size() is %zu instead of %zu", "AB"[y], A.size(), R.size());
        REQUIRE(A.empty() == R.empty() && K.empty() == R.empty(), "%c: empty() is wrong", "AB"[y]);
        REQUIRE(A.capacity() >= R.size(), "%c: capacity below size", "AB"[y]);
        REQUIRE(A.end() - A.begin() == (std::ptrdiff_t)R.size() && K.end() - K.begin() == (std::ptrdiff_t)R.size(), "%c: end - begin", "AB"[y]);
        REQUIRE((A.begin() == A.end()) == R.empty(), "%c: begin == end", "AB"[y]);
        auto kit = K.begin();
        auto rit = A.end();
        auto krt = K.end();
        for(std::size_t i = 0; i < R.size(); ++i, ++kit) {
            std::size_t r = R.size() - 1 - i;
            --rit;
            --krt;
            REQUIRE(tk::id(A[i]) == R[i] && tk::id(K[i]) == R[i], "%c[%zu]", "AB"[y], i);
            REQUIRE(std::addressof(A[i]) == A.data() + i && std::addressof(K[i]) == K.data() + i, "%c: &[%zu] is not data()+%zu", "AB"[y], i, i);
            REQUIRE(tk::id(*kit) == R[i], "%c: const iteration at %zu", "AB"[y], i);
            REQUIRE(tk::id(*rit) == R[r] && tk::id(*krt) == R[r], "%c: backward iteration at %zu", "AB"[y], r);
            REQUIRE(typename Arr::const_iterator(A.begin() + i) == kit, "%c: const and mutable iterators differ", "AB"[y]);
        }
#ifndef NDEBUG
        if(R.empty())
            REQUIRE(mc::rejects([&] { A.pop_back(); }), "%c: pop_back of an empty array was not rejected", "AB"[y]);
#endif
        if(!R.empty()) {
            REQUIRE(tk::id(A.front()) == R.front() && tk::id(K.front()) == R.front(), "%c: front", "AB"[y]);
            REQUIRE(tk::id(A.back()) == R.back() && tk::id(K.back()) == R.back(), "%c: back", "AB"[y]);
            std::size_t i = R.size();
            for(xme::ReverseIterator<typename Arr::iterator> it(A.end()), e(A.begin()); it != e; ++it)
                REQUIRE(tk::id(*it) == R[--i], "%c: reverse iteration", "AB"[y]);
        }
    }
    void check_life(int y, const Op& op) {
        Arr& A = a(y);
        for(std::size_t i = 0; i < A.size(); ++i)
            (void)tk::id(A.begin()[i]);  // alive and at home
        const auto* p = std::to_address(A.begin());
        if(p) {
            const tk::Block* b = tk::block_at(p);
            REQUIRE(b != nullptr, "allocation: %c's storage is not an allocated block", "AB"[y]);
            REQUIRE(b->n == A.capacity(), "allocation: %c's capacity is %zu but its block has %zu", "AB"[y], A.capacity(), b->n);
            std::size_t k = tk::live_in(p, A.capacity() * sizeof(T), alignof(T));
            REQUIRE(k == A.size(), "lifetime: %c's storage has %zu live elements, its size is %zu", "AB"[y], k, A.size());
            if(std::is_constructible_v<Al, int> && !std::allocator_traits<Al>::is_always_equal::value && want_alloc[y] >= 0)
                REQUIRE(b->id == want_alloc[y], "allocation: %c's storage is from allocator %d instead of %d", "AB"[y], b->id, want_alloc[y]);
            if(want_alloc[y] < 0)
                want_alloc[y] = -1;
        }
        if(y == 1) {
            REQUIRE(tk::live.n == a(0).size() + a(1).size(), "lifetime: %zu elements alive, the arrays hold %zu", tk::live.n, a(0).size() + a(1).size());
            std::size_t nb = (std::to_address(a(0).begin()) != nullptr) + (std::to_address(a(1).begin()) != nullptr);
            REQUIRE(tk::blocks.size() == nb, "allocation: %zu blocks allocated for %zu arrays with storage", tk::blocks.size(), nb);
            switch(op.k) {
            case PushR: case Emplace: case PushConv: case PushSelfMove: case InsR: case InsConv: case InsSelfMove: case EraseAt: case EraseRange:
            case Pop: case Clear: case Reserve: case Resize: case CtorMove: case AsgMove: case Swap: case FreeSwap: case PushRange2: case InsRangeIt: case PushOnce: case InsOnce: case CtorOnce:
                if(!std::is_same_v<T, tk::CopyOnly>)
                    REQUIRE(tk::cnt.copies() == c0.copies(), "an element was copied by an operation that has nothing to copy");
                break;
            default: break;
            }
        }
    }
    void check_cap(const Op& op) {
        const int x = op.x;
        Arr& A      = a(x);
        auto data   = [&](int y) { return std::to_address(a(y).begin()); };
        for(int y = 0; y < 2; ++y)
            REQUIRE(a(y).size() <= a(y).capacity(), "%c: size %zu exceeds capacity %zu", "AB"[y], a(y).size(), a(y).capacity());
        auto elements = [&](const char* what) {
            REQUIRE(A.size() == ref[x].size(), "%s changed the number of elements to %zu instead of %zu", what, A.size(), ref[x].size());
            for(std::size_t i = 0; i < A.size(); ++i)
                REQUIRE(tk::id(A.begin()[i]) == ref[x][i], "%s changed element %zu", what, i);
        };
        auto in_place = [&](const char* what) {
            REQUIRE(A.capacity() == pre[x].cap, "%s changed the capacity from %zu to %zu", what, pre[x].cap, A.capacity());
            REQUIRE(data(x) == pre[x].data, "%s moved the storage although the result fits", what);
            REQUIRE(tk::cnt.alloc == c0.alloc, "%s allocated although the result fits", what);
        };
        switch(op.k) {
        case Reserve:
            REQUIRE(A.capacity() >= op.i && A.capacity() >= pre[x].cap, "reserve(%u) left a capacity of %zu (was %zu)", op.i, A.capacity(), pre[x].cap);
            elements("reserve");
            if(op.i <= pre[x].cap)
                in_place("reserve");
            break;
        case Resize:
            REQUIRE(A.capacity() == op.i, "resize(%u) left a capacity of %zu", op.i, A.capacity());
            elements("resize");
            if(op.i == pre[x].cap)
                in_place("resize");
            break;
        case Clear:
            REQUIRE(A.size() == 0, "clear left elements");
            in_place("clear");
            break;
        case Pop: in_place("pop_back"); break;
        case EraseAt:
        case EraseRange: in_place("erase"); break;
        case PushL: case PushR: case Emplace: case PushConv: case PushSelf: case PushSelfMove: case EmplaceSelf: case PushRangeL: case PushRange2:
        case InsL: case InsR: case InsConv: case InsSelf: case InsSelfMove: case InsRange: case InsRangeIt: case PushOnce: case InsOnce:
            if(A.size() <= pre[x].cap)
                in_place(names[op.k]);
            break;
        case CtorCap:
            REQUIRE(A.capacity() == op.i && A.size() == 0, "Array(n) has size %zu and capacity %zu", A.size(), A.capacity());
            break;
        case CtorMove:
            REQUIRE(data(x) == pre[1 - x].data && A.capacity() == pre[1 - x].cap && A.size() == pre[1 - x].size, "move construction did not hand over the storage");
            REQUIRE(tk::cnt.touched() == c0.touched(), "move construction touched elements");
            break;
        case AsgMove:
            REQUIRE(data(x) == pre[1 - x].data && A.capacity() == pre[1 - x].cap && A.size() == pre[1 - x].size, "move assignment did not hand over the storage");
            REQUIRE(tk::cnt.touched() == c0.touched(), "move assignment touched elements");
            break;
        case Swap: case FreeSwap:
            for(int y = 0; y < 2; ++y)
                REQUIRE(data(y) == pre[1 - y].data && a(y).capacity() == pre[1 - y].cap && a(y).size() == pre[1 - y].size, "swap did not exchange the storage");
            REQUIRE(tk::cnt.touched() == c0.touched(), "swap touched elements");
            break;
        default: break;
        }
    }
    std::string key() {
        std::string k;
        std::vector<int> map(fresh + 1, 0);
        int next = 1;
        for(int y = 0; y < 2; ++y) {
            k += (char)a(y).size();
            k += (char)(a(y).capacity());
            k += (char)(std::to_address(a(y).begin()) != nullptr);
            if(M == Life && !std::allocator_traits<Al>::is_always_equal::value)
                k += (char)want_alloc[y];
            for(std::size_t i = 0; i < a(y).size(); ++i) {
                int v = tk::id(a(y).begin()[i]);
                if(v < 0 || v >= (int)map.size())
                    k += (char)200;
                else {
                    if(!map[v])
                        map[v] = next++;
                    k += (char)map[v];
                }
            }
        }
        return k;
    }

    // ---- one operation on one given shape --------------------------------------------------------
    //! A gets n elements and spare more room; B gets m elements
    void shape(unsigned n, unsigned spare, unsigned m = 0) {
        a(0).~Arr();
        ::new(mem[0]) Arr(std::size_t(n + spare), al(1));
        if(n + spare == 0) {
            a(0).~Arr();
            ::new(mem[0]) Arr(al(1));
        }
        ref[0].clear();
        for(unsigned i = 0; i < n; ++i) {
            ref[0].push_back(fresh);
            a(0).emplace_back(fresh++);
        }
        for(unsigned i = 0; i < m; ++i) {
            ref[1].push_back(fresh);
            a(1).emplace_back(fresh++);
        }
    }
};

//! every operation on every shape
template<typename S>
void sweep(Cfg cfg, const std::vector<unsigned>& sizes, unsigned max_spare, unsigned max_range, bool all_positions, bool long_ranges = false) {
    auto one = [&](unsigned n, unsigned spare, Op op) {
        if(mc::g_shards > 1 && (n + spare) % mc::g_shards != (unsigned)mc::g_shard)
            return;
        mc::begin_case();
        S s(cfg);
        OP("A has %u elements and room for %u more, B has 2 elements", n, spare);
        s.shape(n, spare, 2);
        s.run(op);
        s.finish();
        ++mc::st.execs;
        mc::evaluated_once();
    };
    for(unsigned n : sizes)
        for(unsigned spare = 0; spare <= max_spare; ++spare) {
            std::vector<unsigned> pos;
            if(all_positions)
                for(unsigned p = 0; p <= n; ++p)
                    pos.push_back(p);
            else {
                for(unsigned p : {0u, 1u, n / 2, n > 1 ? n - 2 : 0u, n > 0 ? n - 1 : 0u, n})
                    if(p <= n && (pos.empty() || pos.back() < p))
                        pos.push_back(p);
            }
            std::vector<unsigned> counts;
            for(unsigned k = 0; k <= max_range; ++k)
                counts.push_back(k);
            if(long_ranges)  // as long as the array, longer, and across block sizes
                for(unsigned k : {n / 2, n ? n - 1 : 0u, n, n + 1, 2 * n, 2 * n + 1, 16u, 33u, 64u, 200u})
                    if(std::find(counts.begin(), counts.end(), k) == counts.end())
                        counts.push_back(k);
            constexpr bool cp = copyable<typename S::Arr::value_type>;
            auto add          = [&](Kind k, unsigned i = 0, unsigned j = 0) { one(n, spare, Op{k, 0, (std::uint16_t)i, (std::uint16_t)j}); };
            for(Kind k : {PushR, Emplace, PushConv, Clear, CtorMove, AsgMove, Swap, FreeSwap, CtorDefault})
                add(k);
            if(n)
                add(Pop);
            if(cp)
                for(Kind k : {PushL, CtorCopy, AsgCopy, AsgSelf, AsgIl})
                    add(k);
            // and with the roles of A and B exchanged
            for(Kind k : {CtorMove, AsgMove})
                one(n, spare, Op{k, 1, 0, 0});
            if(cp)
                for(Kind k : {CtorCopy, AsgCopy})
                    one(n, spare, Op{k, 1, 0, 0});
            for(unsigned p : pos) {
                if(p < n) {
                    add(EraseAt, p);
                    add(PushSelfMove, p);
                    if(cp) {
                        add(PushSelf, p);
                        add(EmplaceSelf, p);
                    }
                }
                add(InsR, p);
                add(InsConv, p);
                if(cp)
                    add(InsL, p);
                for(unsigned q : pos) {
                    if(q < n) {
                        if(cp)
                            add(InsSelf, p, q);
                        add(InsSelfMove, p, q);
                    }
                    if(q >= p)
                        add(EraseRange, p, q);
                }
                for(unsigned k : counts) {
                    add(InsRange, p, k);
                    add(InsRangeIt, p, k);
                    add(InsOnce, p, k);
                }
            }
            for(unsigned k : counts) {
                add(PushRangeL, k);
                add(PushRange2, k);
                add(PushOnce, k);
            }
            for(unsigned p : pos) {
                add(Reserve, p);
                add(Resize, p);
            }
            for(unsigned c = 1; c <= max_spare + 2; ++c) {
                add(Reserve, n + c);
                add(Resize, n + c);
            }
            add(Reserve, 2 * n + 1);
            add(Resize, 2 * n + 1);
            if(cp) {
                add(CtorFill, n);
                add(CtorIl);
            }
            add(CtorIter, n);
            add(CtorRange, n);
            add(CtorOnce, n);
            add(CtorCap, n);
        }
}
inline std::vector<unsigned> upto(unsigned n) {
    std::vector<unsigned> v;
    for(unsigned i = 0; i <= n; ++i)
        v.push_back(i);
    return v;
}
inline const std::vector<unsigned> kBoundary = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025};
}  // namespace as
