// Bounded exhaustive exploration of the real code: choice-tree DFS, explicit-state BFS by replay,
// crash/hang-safe trails and replay.  One scenario per process; the driver (mc/run.py) is the parent.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csetjmp>
#include <csignal>
#include <fcntl.h>
#include <functional>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {
struct Trail {
    std::uint32_t magic;
    volatile std::uint32_t status;  // 0 running, 1 violation recorded, 2 finished
    volatile std::uint64_t execs;
    std::uint32_t nchoices;
    std::uint32_t loglen;
    std::uint32_t msglen;
    std::uint32_t choices[4096];
    char msg[4096];
    char log[16384];
};
inline Trail g_dummy{};
inline Trail* g_trail = &g_dummy;
inline bool thorough  = false;
//! the optimised build affords a deeper exploration
#ifdef NDEBUG
inline constexpr int fast = 1;
#else
inline constexpr int fast = 0;
#endif
inline long seed      = 1;

inline void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void log(const char* fmt, ...) {
    std::size_t cap = sizeof(g_trail->log);
    if(g_trail->loglen + 2 >= cap)
        return;
    va_list ap;
    va_start(ap, fmt);
    int n = std::vsnprintf(g_trail->log + g_trail->loglen, cap - g_trail->loglen - 1, fmt, ap);
    va_end(ap);
    if(n > 0) {
        g_trail->loglen = std::min<std::size_t>(g_trail->loglen + n, cap - 2);
        g_trail->log[g_trail->loglen] = 0;
    }
}
// operation descriptions as a lazily formatted line
#define OP(...) (::mc::log(__VA_ARGS__), ::mc::log("\n"))

[[noreturn]] inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char* fmt, ...) {
    if(g_trail->status == 0) {
        va_list ap;
        va_start(ap, fmt);
        std::vsnprintf(g_trail->msg, sizeof(g_trail->msg), fmt, ap);
        va_end(ap);
        g_trail->msglen = std::strlen(g_trail->msg);
        g_trail->status = 1;
    }
    std::fprintf(stderr, "mc: %s\n%s\n", g_trail->log, g_trail->msg);
    std::fflush(stderr);
    _exit(42);
}
#define REQUIRE(cond, ...)                                                          \
    do {                                                                            \
        if(!(cond)) {                                                               \
            char mc_b_[1024];                                                       \
            std::snprintf(mc_b_, sizeof mc_b_, __VA_ARGS__);                        \
            ::mc::fail("%s   [%s]", mc_b_, #cond);                                  \
        }                                                                           \
    } while(0)

// ---- assertion capture -------------------------------------------------------------------------
inline std::jmp_buf* g_assert_jmp = nullptr;
//! true iff fn hits an assert (the code under test "rejects" the call)
template<typename F>
__attribute__((noinline)) bool rejects(F&& fn) {
    std::jmp_buf jb;
    g_assert_jmp = &jb;
    if(setjmp(jb) == 0) {
        fn();
        g_assert_jmp = nullptr;
        return false;
    }
    g_assert_jmp = nullptr;
    return true;
}

// ---- statistics --------------------------------------------------------------------------------
struct Stats {
    std::uint64_t execs = 0, states = 0, transitions = 0, evals = 0, max_depth = 0;
    std::unordered_set<std::uint64_t> distinct;
    std::uint64_t distinct_extra = 0;  // distinct by construction (enumerated without repetition)
    std::vector<std::string> samples;
    bool exhaustive = true;
    std::map<std::string, std::uint64_t> extra;
};
inline Stats st;
inline void sample(const std::string& s) {
    if(st.samples.size() < 4)
        st.samples.push_back(s);
}
inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xBF58476D1CE4E5B9ull;
    return h ^ (h >> 29);
}
inline std::uint64_t hash(const std::string& s, std::uint64_t seed0 = 1) {
    std::uint64_t h = seed0;
    for(unsigned char c : s)
        h = mix(h, c);
    return h;
}
//! one evaluated case; key identifies the case, nontrivial says whether it exercises the property
inline void evaluated(std::uint64_t key, bool nontrivial = true) {
    ++st.evals;
    ++g_trail->execs;
    if(nontrivial)
        st.distinct.insert(key);
}
//! as evaluated(), for enumerations that cannot repeat a case
inline void evaluated_once(bool nontrivial = true) {
    ++st.evals;
    ++g_trail->execs;
    if(nontrivial)
        ++st.distinct_extra;
}
//! starts the description of a new case
inline void begin_case() {
    g_trail->loglen = 0;
    g_trail->log[0] = 0;
    ++g_trail->execs;
}

// ---- choice-tree DFS ---------------------------------------------------------------------------
struct Choices {
    std::vector<std::uint32_t> prefix, taken, arity;
    std::uint32_t operator()(std::uint32_t n) {
        if(n == 0)
            fail("harness: choose(0)");
        std::uint32_t i = taken.size();
        std::uint32_t v = i < prefix.size() ? prefix[i] : 0;
        if(v >= n)
            fail("harness: replay divergence: choice %u of %u at %u", v, n, i);
        taken.push_back(v);
        arity.push_back(n);
        if(i < 4096) {
            g_trail->choices[i] = v;
            g_trail->nchoices   = i + 1;
        }
        return v;
    }
};
inline std::vector<std::uint32_t> g_replay;
inline bool g_replaying = false;
inline int g_shard = 0, g_shards = 1;

//! runs body once per leaf of the choice tree
inline void dfs(const std::function<void(Choices&)>& body, std::uint64_t cap = ~0ull) {
    Choices c;
    auto once = [&] {
        c.taken.clear();
        c.arity.clear();
        g_trail->nchoices = 0;
        begin_case();
        body(c);
        ++st.execs;
    };
    if(g_replaying) {
        c.prefix = g_replay;
        once();
        return;
    }
    if(g_shards > 1) {  // shard on the first choice
        c.prefix = {(std::uint32_t)g_shard};
    }
    for(bool first = true;; first = false) {
        if(first && g_shards > 1) {
            // learn the arity of the first choice with an in-range prefix
            Choices probe;
            probe.prefix = {};
            std::swap(c, probe);
            once();
            std::uint32_t n = c.arity.empty() ? 1 : c.arity[0];
            --st.execs;
            std::swap(c, probe);
            if((std::uint32_t)g_shard >= n)
                return;
            c.prefix = {(std::uint32_t)g_shard};
        }
        once();
        if(st.execs >= cap) {
            st.exhaustive = false;
            return;
        }
        int i = (int)c.taken.size() - 1;
        for(; i >= 0; --i) {
            std::uint32_t step = (i == 0 ? g_shards : 1);
            if(c.taken[i] + step < c.arity[i]) {
                c.prefix.assign(c.taken.begin(), c.taken.begin() + i + 1);
                c.prefix[i] += step;
                break;
            }
        }
        if(i < 0)
            return;
    }
}

// ---- explicit-state BFS by replay --------------------------------------------------------------
// Sys: Sys() initial state; std::uint32_t ops() number of operation instances in the alphabet;
//      bool apply(op) executes op on the implementation and the reference in lockstep, with all
//      checks, false if op is not enabled; std::string key() canonical state; finish() final checks.
struct Bounds {
    int depth;
    std::uint64_t max_states = ~0ull;
    bool dedup               = true;
};
template<typename Sys, typename... A>
void bfs(Bounds b, A&&... args) {
    using Hist = std::vector<std::uint16_t>;
    auto run   = [&](const Hist& h, Sys& s, bool publish) {
        begin_case();
        if(publish)
            g_trail->nchoices = 0;
        for(std::size_t i = 0; i < h.size(); ++i) {
            g_trail->choices[i] = h[i];
            g_trail->nchoices   = i + 1;
            if(!s.apply(h[i]))
                fail("harness: replay divergence: operation %u not enabled", h[i]);
        }
    };
    if(g_replaying) {
        begin_case();
        Sys s(args...);
        for(std::size_t i = 0; i < g_replay.size(); ++i)
            s.apply(g_replay[i]);
        s.finish();
        return;
    }
    struct H128 {
        std::size_t operator()(const std::pair<std::uint64_t, std::uint64_t>& p) const { return p.first; }
    };
    std::unordered_set<std::pair<std::uint64_t, std::uint64_t>, H128> seen;
    std::vector<Hist> level{{}}, next;
    {
        g_trail->nchoices = 0;
        begin_case();
        Sys s(args...);
        std::string k = s.key();
        seen.insert({hash(k, 1), hash(k, 77)});
        s.finish();
        ++st.states;
        ++st.execs;
    }
    for(int d = 0; d < b.depth && !level.empty(); ++d) {
        next.clear();
        for(const Hist& h : level) {
            std::uint32_t n = 0;
            {
                Sys s(args...);
                run(h, s, true);
                n = s.ops();
                s.finish();
            }
            for(std::uint32_t op = 0; op < n; ++op) {
                Sys s(args...);
                run(h, s, true);
                g_trail->choices[h.size()] = op;
                g_trail->nchoices          = h.size() + 1;
                if(!s.apply(op)) {
                    s.finish();
                    continue;
                }
                ++st.transitions;
                std::string k = s.key();
                s.finish();
                ++st.execs;
                bool fresh = seen.insert({hash(k, 1), hash(k, 77)}).second;
                if(fresh)
                    ++st.states;
                if(fresh || !b.dedup) {
                    Hist nh = h;
                    nh.push_back(op);
                    if(st.samples.size() < 3 && (int)nh.size() == std::min(b.depth, 3))
                        sample(g_trail->log);
                    if(st.states >= b.max_states) {
                        st.exhaustive = false;
                        st.extra["states_not_expanded"]++;
                    }
                    else if(d + 1 < b.depth)
                        next.push_back(std::move(nh));
                }
            }
        }
        st.max_depth = d + 1;
        std::swap(level, next);
    }
}

// ---- scenarios and main ------------------------------------------------------------------------
struct Scenario {
    std::string name;
    std::function<void()> run;
    int shards;
};
inline std::vector<Scenario>& scenarios() {
    static std::vector<Scenario> s;
    return s;
}
inline void add(std::string name, std::function<void()> fn, int shards = 1) {
    scenarios().push_back({std::move(name), std::move(fn), shards});
}
inline std::uint64_t g_last_execs = ~0ull;
inline int g_stalls               = 0;
inline void on_timer(int) {
    std::uint64_t e = g_trail->execs;
    if(e == g_last_execs) {
        if(++g_stalls >= 3) {
            if(g_trail->status == 0) {
                std::strcpy(g_trail->msg, "no progress: the operation does not terminate");
                g_trail->status = 1;
            }
            _exit(43);
        }
    }
    else {
        g_stalls     = 0;
        g_last_execs = e;
    }
}
inline std::string json(const std::string& s) {
    std::string o = "\"";
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') {
            o += '\\';
            o += c;
        }
        else if(c == '\n')
            o += "\\n";
        else if(c < 32 || c > 126) {
            char b[8];
            std::snprintf(b, 8, "\\u%04x", c);
            o += b;
        }
        else
            o += c;
    }
    return o + "\"";
}
inline int main_impl(int argc, char** argv, void (*setup)()) {
    std::string scen, out, trail;
    bool list = false;
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val      = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if(a == "--list")
            list = true;
        else if(a == "--scenario")
            scen = val();
        else if(a == "--out")
            out = val();
        else if(a == "--trail")
            trail = val();
        else if(a == "--thorough")
            thorough = true;
        else if(a == "--seed")
            seed = std::stol(val());
        else if(a == "--shard") {
            std::string v = val();
            std::sscanf(v.c_str(), "%d/%d", &g_shard, &g_shards);
        }
        else if(a == "--replay") {
            g_replaying   = true;
            std::string v = val();
            for(char* p = v.data(); *p;) {
                g_replay.push_back(std::strtoul(p, &p, 10));
                while(*p == ',' || *p == ' ')
                    ++p;
            }
        }
    }
    setup();
    if(list) {
        for(auto& s : scenarios())
            std::printf("%s %d\n", s.name.c_str(), s.shards);
        return 0;
    }
    if(!trail.empty()) {
        int fd = ::open(trail.c_str(), O_RDWR | O_CREAT, 0644);
        if(fd < 0 || ftruncate(fd, sizeof(Trail)) != 0)
            return 3;
        void* m = mmap(nullptr, sizeof(Trail), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if(m == MAP_FAILED)
            return 3;
        g_trail        = static_cast<Trail*>(m);
        g_trail->magic = 0x4d43;
    }
    std::signal(SIGVTALRM, on_timer);
    itimerval tv{{15, 0}, {15, 0}};
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    for(auto& s : scenarios())
        if(s.name == scen) {
            try {
                s.run();
            }
            catch(const std::exception& e) {
                fail("unexpected exception: %s", e.what());
            }
            catch(...) {
                fail("unexpected exception");
            }
            g_trail->status = 2;
            if(!out.empty()) {
                FILE* f = std::fopen(out.c_str(), "w");
                std::fprintf(f,
                             "{\"execs\":%llu,\"states\":%llu,\"transitions\":%llu,\"evals\":%llu,"
                             "\"distinct\":%llu,\"max_depth\":%llu,\"exhaustive\":%s,\"samples\":[",
                             (unsigned long long)st.execs,
                             (unsigned long long)st.states,
                             (unsigned long long)st.transitions,
                             (unsigned long long)st.evals,
                             (unsigned long long)(st.distinct.size() + st.distinct_extra),
                             (unsigned long long)st.max_depth,
                             st.exhaustive ? "true" : "false");
                for(std::size_t i = 0; i < st.samples.size(); ++i)
                    std::fprintf(f, "%s%s", i ? "," : "", json(st.samples[i]).c_str());
                std::fprintf(f, "],\"extra\":{");
                bool first = true;
                for(auto& [k, v] : st.extra) {
                    std::fprintf(f, "%s%s:%llu", first ? "" : ",", json(k).c_str(), (unsigned long long)v);
                    first = false;
                }
                std::fprintf(f, "}}\n");
                std::fclose(f);
            }
            return 0;
        }
    std::fprintf(stderr, "no such scenario\n");
    return 3;
}
}  // namespace mc

extern "C" [[noreturn]] inline void mc_assert_fail(const char* expr, const char* file, unsigned line) {
    if(mc::g_assert_jmp) {
        auto* j          = mc::g_assert_jmp;
        mc::g_assert_jmp = nullptr;
        std::longjmp(*j, 1);
    }
    mc::fail("assertion '%s' failed at %s:%u", expr, file, line);
}
#define MC_MAIN(setup_fn)                                                                             \
    extern "C" [[noreturn]] void __assert_fail(const char* e, const char* f, unsigned l, const char*) \
      noexcept {                                                                                      \
        mc_assert_fail(e, f, l);                                                                      \
    }                                                                                                 \
    int main(int c, char** v) {                                                                       \
        return ::mc::main_impl(c, v, setup_fn);                                                       \
    }
