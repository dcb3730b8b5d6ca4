// C25: environment variables in lockstep with a map, and the whole environment compared after every step.
#include "mc.hpp"
#include <map>
#include <optional>
#include <string>
#include <string_view>
#include <xme/hal/platform.hpp>
extern char** environ;

static const std::string names[]  = {"XME_MC_A", "XME_MC_AB", "xme mc b"};
static const std::string values[] = {"", "1", " =", std::string(300, 'q') + " "};
static const char* const vnames[] = {"\"\"", "\"1\"", "\" =\"", "a string of 301"};
constexpr int NN = 3, NV = 4;
using Env = std::map<std::string, std::string>;
static Env snapshot() {
    Env e;
    for(char** p = environ; p && *p; ++p) {
        std::string s(*p);
        auto i = s.find('=');
        if(i != s.npos) {
            REQUIRE(!e.count(s.substr(0, i)), "%s is in the environment twice", s.substr(0, i).c_str());
            e[s.substr(0, i)] = s.substr(i + 1);
        }
    }
    return e;
}
struct Sys {
    Env want;
    bool parts;  // names and values are parts of longer strings
    Sys(bool parts) : parts(parts) {
        ::clearenv();
        ::setenv("XME_MC", "prefix", 1);
        ::setenv("XME_MC_ABC", "longer", 1);
        ::setenv("EMPTY", "", 1);
        want = {{"XME_MC", "prefix"}, {"XME_MC_ABC", "longer"}, {"EMPTY", ""}};
    }
    std::uint32_t ops() const { return NN * NV + NN; }
    struct Part {
        std::string whole;
        std::string_view v;
        Part(const std::string& s, bool part) : whole(part ? "AB" + s + "Ab=" : s), v(part ? std::string_view(whole).substr(2, s.size()) : std::string_view(whole)) {}
    };
    void settle() {
        for(int i = 0; i < NN; ++i) {
            Part n(names[i], parts);
            const char* got = xme::hal::get_environment_variable(n.v);
            auto it         = want.find(names[i]);
            if(it == want.end())
                REQUIRE(got == nullptr, "%s is '%s', expected nothing", names[i].c_str(), got);
            else
                REQUIRE(got && it->second == got, "%s is '%s', expected '%s'", names[i].c_str(), got ? got : "(nothing)", it->second.c_str());
        }
        const Env now = snapshot();
        for(auto& [k, v] : now)
            REQUIRE(want.count(k) && want[k] == v, "the environment holds %s='%s'", k.c_str(), v.c_str());
        REQUIRE(now.size() == want.size(), "the environment holds %zu variables, expected %zu", now.size(), want.size());
    }
    bool apply(std::uint32_t op) {
        if(op < NN * NV) {
            const int n = op / NV, v = op % NV;
            OP("set %s to %s", names[n].c_str(), vnames[v]);
            {
                Part pn(names[n], parts), pv(values[v], parts);
                xme::hal::set_environment_variable(pn.v, pv.v);
            }  // the strings are gone
            if(values[v].empty())
                want.erase(names[n]);
            else
                want[names[n]] = values[v];
        }
        else {  // someone else sets it
            const int n = op - NN * NV;
            OP("setenv(%s, \"other\")", names[n].c_str());
            ::setenv(names[n].c_str(), "other", 1);
            want[names[n]] = "other";
        }
        settle();
        return true;
    }
    std::string key() const {
        std::string k;
        for(auto& [n, v] : want)
            k += n + "=" + v + ";";
        return k;
    }
    void finish() {}
};
//! every byte there can be, alone, twice and at either end, in values and names
static void bytes() {
    auto check = [](const std::string& name, const std::string& value) {
        mc::g_trail->loglen = 0;
        mc::log("set a variable whose name has %zu bytes, beginning %02x, to %zu bytes, beginning %02x and ending %02x", name.size(), (unsigned char)name[0], value.size(), (unsigned char)value[0], (unsigned char)value.back());
        xme::hal::set_environment_variable(name, value);
        const char* got = xme::hal::get_environment_variable(name);
        REQUIRE(got && value == got, "the value read back is another: '%s'", got ? got : "(nothing)");
        const char* real = ::getenv(name.c_str());
        REQUIRE(real && value == real, "the value in the environment is another: '%s'", real ? real : "(nothing)");
        const Env now = snapshot();
        REQUIRE(now.size() == 2 && now.at("XME_MC") == "prefix", "another variable is affected");
        xme::hal::set_environment_variable(name, "");
        REQUIRE(!xme::hal::get_environment_variable(name) && !::getenv(name.c_str()) && snapshot().size() == 1, "the variable is still there");
        mc::evaluated_once();
    };
    ::clearenv();
    ::setenv("XME_MC", "prefix", 1);
    const int most = mc::thorough ? 256 : 40;
    for(int c = 1; c < 256; ++c) {
        const std::string one(1, (char)c), more[] = {one, one + one, "a" + one, one + "a", "a" + one + "a", one + one + one + one + one + one + one + one};
        for(auto& s : more) {
            check("XME_MC_A", s);
            if(c != '=')
                check(s, "value");
            if(c != '=')
                check("XME_MC" + s, s);
        }
    }
    for(int n = 1; n <= most * 16; n += n < 300 ? 1 : 97) {  // and of every length
        check("XME_MC_A", std::string(n, 'v'));
        check(std::string(n, 'n'), "v");
    }
    mc::sample(mc::g_trail->log);
}
static void setup() {
    mc::add("bytes", bytes);
    mc::add("states", [] { mc::bfs<Sys>({20}, false); });
    mc::add("states-parts", [] { mc::bfs<Sys>({20}, true); });
    mc::add("histories", [] { mc::bfs<Sys>({mc::thorough ? 5 : 4, ~0ull, false}, true); });
}
MC_MAIN(setup)
