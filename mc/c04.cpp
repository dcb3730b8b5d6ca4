// C04: every fault point of every Array operation on every shape.
#include "array_sys.hpp"
using namespace as;
static bool strong(Kind k) {
    switch(k) {
    case PushL: case PushR: case Emplace: case PushConv: case PushSelf: case PushSelfMove: case EmplaceSelf: case Reserve: case Resize:
    case CtorDefault: case CtorCap: case CtorFill: case CtorIter: case CtorRange: case CtorOnce: case CtorIl: case CtorCopy: case CtorMove: case CtorAlloc:
    case AsgCopy: return true;
    default: return false;
    }
}
static bool is_ctor(Kind k) { return k >= CtorDefault && k <= CtorAlloc; }

template<typename T, typename Al>
struct FaultSys : Sys<T, Al, Life> {
    using Base = Sys<T, Al, Life>;
    using Base::Base;
    std::vector<int> contents(int y) {
        std::vector<int> v;
        for(std::size_t i = 0; i < this->a(y).size(); ++i)
            v.push_back(tk::id(this->a(y).begin()[i]));
        return v;
    }
    void same(const char* when) {
        for(int y = 0; y < 2; ++y) {
            auto got = contents(y);
            REQUIRE(got == this->ref[y], "%s: %c holds %s instead of %s", when, "AB"[y], Base::show(got).c_str(), Base::show(this->ref[y]).c_str());
        }
    }
    //! op with the k-th fault point failing; false if there are fewer
    bool faulty(const Op& op, long k) {
        std::vector<int> before[2] = {this->ref[0], this->ref[1]};
        int before_alloc[2]        = {this->want_alloc[0], this->want_alloc[1]};
        tk::fault_reset(k);
        bool thrown = false;
        try {
            OP("%c.%s i=%d j=%d with fault point %ld failing", "AB"[op.x], names[op.k], op.i, op.j, k);
            this->exec(op);
        }
        catch(tk::Fault&) {
            thrown = true;
        }
        bool fired = tk::fault_fired;
        char kind  = tk::fault_kind;
        tk::fault_reset(-1);
        REQUIRE(thrown == fired, fired ? "the exception did not reach the caller" : "an exception came out of nothing");
        if(!fired) {
            this->c0 = tk::cnt;
            this->check_life(0, Op{Clear, 0, 0, 0});
            this->check_life(1, Op{CtorDefault, 0, 0, 0});
            same("after the operation");
            return false;
        }
        if(is_ctor(op.k)) {
            ::new(this->mem[op.x]) typename Base::Arr(Base::al(1));
            this->want_alloc[op.x] = 1;
            before[op.x].clear();
        }
        else
            this->want_alloc[op.x] = before_alloc[op.x];
        this->want_alloc[1 - op.x] = before_alloc[1 - op.x];
        this->c0 = tk::cnt;
        this->check_life(0, Op{Clear, 0, 0, 0});
        this->check_life(1, Op{CtorDefault, 0, 0, 0});
        for(int y = 0; y < 2; ++y) {
            REQUIRE(this->a(y).size() <= this->a(y).capacity(), "%c: size exceeds capacity", "AB"[y]);
            this->ref[y] = before[y];
            bool keeps   = (strong(op.k) && (kind == 'c' || kind == 'C' || kind == 'a')) || (y != op.x && op.k != Swap && op.k != FreeSwap);
            if(!keeps)
                this->ref[y] = contents(y);
        }
        same("after the exception");
        return true;
    }
    //! the arrays are still arrays
    void use() {
        OP("use both arrays");
        for(int y = 0; y < 2; ++y) {
            auto n = this->a(y).size();
            auto go = [&](Op op) {
                op.x = y;
                Base::run(op);
                same(names[op.k]);
            };
            go({PushConv, 0, 0, 0});
            go({InsConv, 0, (std::uint16_t)(n / 2), 0});
            go({EraseAt, 0, 0, 0});
            go({InsRangeIt, 0, (std::uint16_t)(this->a(y).size()), 2});
            go({Reserve, 0, (std::uint16_t)(this->a(y).capacity() + 1), 0});
            if constexpr(copyable<T>)
                go({CtorCopy, 0, 0, 0});
            go({Resize, 0, 1, 0});
            go({Clear, 0, 0, 0});
            go({Emplace, 0, 0, 0});
        }
    }
};

//! one operation on every shape, every fault point
template<typename T, typename Al>
static void faults(Cfg cfg, unsigned max_n, unsigned max_spare, unsigned max_m) {
    using S = FaultSys<T, Al>;
    int idx = 0;
    for(unsigned n = 0; n <= max_n; ++n)
        for(unsigned spare = 0; spare <= max_spare; ++spare)
            for(unsigned m = 0; m <= max_m; ++m, ++idx) {
                if(mc::g_shards > 1 && idx % mc::g_shards != mc::g_shard)
                    continue;
                std::vector<Op> ops;
                {
                    tk::reset_registry();
                    S s(cfg);
                    s.shape(n, spare, m);
                    ops = s.list();
                    s.finish();
                }
                ++mc::st.states;
                for(const Op& op : ops)
                    for(long k = 0;; ++k) {
                        mc::begin_case();
                        S s(cfg);
                        OP("A has %u elements and room for %u more, B has %u", n, spare, m);
                        s.shape(n, spare, m);
                        bool fired = s.faulty(op, k);
                        s.use();
                        s.finish();
                        ++mc::st.transitions;
                        ++mc::st.execs;
                        if(n == 2 && k == 1 && op.k == InsRange)
                            mc::sample(mc::g_trail->log);
                        if(!fired)
                            break;
                        REQUIRE(k < 1000, "harness: endless fault points");
                    }
            }
}
//! two faulty operations in a row
template<typename T, typename Al>
static void faults2(Cfg cfg, unsigned max_n, unsigned max_spare) {
    using S = FaultSys<T, Al>;
    int idx = 0;
    for(unsigned n = 0; n <= max_n; ++n)
        for(unsigned spare = 0; spare <= max_spare; ++spare) {
            std::vector<Op> ops;
            {
                S s(cfg);
                s.shape(n, spare, 1);
                ops = s.list();
                s.finish();
            }
            ++mc::st.states;
            for(const Op& op : ops) {
                if(mc::g_shards > 1 && idx++ % mc::g_shards != mc::g_shard)
                    continue;
                for(long k = 0;; ++k) {
                    bool fired = false;
                    std::uint32_t nops = 1;
                    for(std::uint32_t o2 = 0; o2 < nops; ++o2)
                        for(long k2 = 0;; ++k2) {
                            mc::begin_case();
                            S s(cfg);
                            OP("A has %u elements and room for %u more, B has 1", n, spare);
                            s.shape(n, spare, 1);
                            fired = s.faulty(op, k);
                            auto l = s.list();
                            nops   = l.size();
                            bool f2 = s.faulty(l[o2], k2);
                            s.finish();
                            ++mc::st.transitions;
                            ++mc::st.execs;
                            if(!f2)
                                break;
                        }
                    if(!fired)
                        break;
                }
            }
        }
}
static void setup() {
    using namespace tk;
    const bool t = mc::thorough;
    Cfg c{8, 2, 2, true, false};
    mc::add("faults.elem", [=] { faults<Elem, Alloc<Elem, true>>(c, t ? 6 : 4, t ? 3 : 2, t ? 3 : 2); }, 4);
    mc::add("faults.throwing_move", [=] { faults<Thrower, Alloc<Thrower, true>>(c, t ? 6 : 4, t ? 3 : 2, t ? 3 : 2); }, 8);
    mc::add("faults.moveonly", [=] { faults<MoveOnly, Alloc<MoveOnly, false>>(c, t ? 5 : 4, 2, 1); }, 2);
    mc::add("faults.copyonly", [=] { faults<CopyOnly, Alloc<CopyOnly, true>>(c, t ? 5 : 4, 2, 1); }, 2);
    Cfg c2{4, 1, 1, true, true};
    mc::add("two_faults.throwing_move", [=] { faults2<Thrower, Alloc<Thrower, true>>(c2, t ? 3 : 1, 1); }, 8);
}
MC_MAIN(setup)
