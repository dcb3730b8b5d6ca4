// C07: element and node lifetimes of LinkedList, with and without failing constructions.
#include "list_sys.hpp"
using namespace ls;
template<typename T, typename Al>
using L = Sys<T, Al, Life>;
template<typename T>
static void one(const char* name) {
    using Al     = tk::Alloc<T, false>;
    const bool t = mc::thorough;
    mc::add(std::string("history.") + name, [=] { mc::bfs<L<T, Al>>({t ? 6 : 4 + mc::fast}, Cfg{4, 2, true, !t}); });
    if constexpr(copyable<T>)
        mc::add(std::string("large.") + name, [=] { sweep_long<L<T, Al>>({16, 33, t ? 200u : 64u}); });
    mc::add(std::string("shapes.") + name, [=] { sweep<L<T, Al>>(t ? 12 : 7, 3, 3); });
}
template<typename T, typename Al>
struct FaultSys : Sys<T, Al, Life> {
    using Base = Sys<T, Al, Life>;
    using Base::Base;
    std::vector<int> contents(int y) {
        std::vector<int> v;
        for(auto it = this->a(y).begin(); it != this->a(y).end() && v.size() < 5000; ++it)
            v.push_back(tk::id(*it));
        return v;
    }
    bool faulty(const Op& op, long k) {
        std::vector<int> before[2]     = {this->ref[0], this->ref[1]};
        std::vector<const T*> where[2] = {this->addr[0], this->addr[1]};
        tk::fault_reset(k);
        bool thrown = false;
        try {
            OP("%c.%s i=%d j=%d with fault point %ld failing", "AB"[op.x], names[op.k], op.i, op.j, k);
            this->exec(op);
        }
        catch(tk::Fault&) {
            thrown = true;
        }
        bool fired = tk::fault_fired;
        char kind  = tk::fault_kind;
        tk::fault_reset(-1);
        REQUIRE(thrown == fired, fired ? "the exception did not reach the caller" : "an exception came out of nothing");
        this->c0 = tk::cnt;
        if(!fired) {
            this->check(Op{CtorCopy, 0, 0, 0});
            return false;
        }
        const bool ctor = (op.k >= CtorDefault && op.k <= CtorMove) || op.k == CtorOnce;
        if(ctor) {
            ::new(this->mem[op.x]) typename Base::List();
            before[op.x].clear();
            where[op.x].clear();
        }
        bool single = false;
        switch(op.k) {
        case PushL: case PushR: case PushSelf: case EmplaceFront: case EmplaceAfter: case InsL: case InsR: case InsConv: case InsSelf: case InsSelfMove: single = true; break;
        default: break;
        }
        (void)kind;
        for(int y = 0; y < 2; ++y) {
            this->ref[y]  = before[y];
            this->addr[y] = where[y];
            if(!(ctor || single || y != op.x)) {
                this->ref[y] = contents(y);
                this->unknown(y);
            }
        }
        this->check(Op{CtorCopy, 0, 0, 0});
        return true;
    }
    void use() {
        OP("use both lists");
        for(std::uint8_t y = 0; y < 2; ++y) {
            this->run({EmplaceFront, y, 0, 0});
            this->run({InsConv, y, (std::uint16_t)this->ref[y].size(), 0});
            this->run({Reverse, y, 0, 0});
            this->run({EraseAfter, y, 0, 0});
            if constexpr(copyable<T>)
                this->run({AsgCopy, y, 0, 0});
            this->run({Clear, y, 0, 0});
            this->run({EmplaceAfter, y, 0, 0});
        }
    }
};
template<typename T>
static void faults(unsigned max_n, unsigned max_m) {
    using S = FaultSys<T, tk::Alloc<T, false>>;
    for(unsigned n = 0; n <= max_n; ++n)
        for(unsigned m = 0; m <= max_m; ++m) {
            std::vector<Op> ops;
            {
                S s(Cfg{max_n + 3, 3, true, false});
                s.shape(n, m);
                ops = s.list();
                s.finish();
            }
            ++mc::st.states;
            for(const Op& op : ops)
                for(long k = 0;; ++k) {
                    mc::begin_case();
                    S s(Cfg{max_n + 3, 3, true, false});
                    OP("A has %u elements, B has %u", n, m);
                    s.shape(n, m);
                    bool fired = s.faulty(op, k);
                    s.use();
                    s.finish();
                    ++mc::st.transitions;
                    ++mc::st.execs;
                    if(n == 2 && k == 2 && op.k == InsRange)
                        mc::sample(mc::g_trail->log);
                    if(!fired)
                        break;
                }
        }
}
static void setup() {
    using namespace tk;
    const bool t = mc::thorough;
    one<Elem>("elem");
    one<MoveOnly>("moveonly");
    one<CopyOnly>("copyonly");
    mc::add("faults.elem", [=] { faults<Elem>(t ? 6 : 4, 3); });
    mc::add("faults.throwing_move", [=] { faults<Thrower>(t ? 6 : 4, 3); });
    mc::add("faults.moveonly", [=] { faults<MoveOnly>(t ? 6 : 4, 2); });
    mc::add("faults.copyonly", [=] { faults<CopyOnly>(t ? 6 : 4, 2); });
}
MC_MAIN(setup)
