// C27: scalar functions over complete domains and grids, constants against independently computed values in quad precision.
#include "mc.hpp"
#include <bit>
#include <cmath>
#include <limits>
#include <quadmath.h>
#include <string>
#include <type_traits>
#include <xme/math/constants.hpp>
#include <xme/math/scalars/functions.hpp>
#include <xme/math/scalars/trigonometry.hpp>
using Quad = __float128;
namespace xm = xme::math;
template<typename T> constexpr const char* type_name = std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : std::is_same_v<T, long double> ? "long double"
    : std::is_same_v<T, signed char> ? "signed char" : std::is_same_v<T, short> ? "short" : std::is_same_v<T, int> ? "int" : std::is_same_v<T, long> ? "long" : "long long";
static std::string show(Quad q) {
    char b[64];
    quadmath_snprintf(b, sizeof b, "%.25Qg", q);
    return b;
}

// ---- constants --------------------------------------------------------------------------------------
namespace ref {
static Quad arctan_inv(int n) {  // arctan(1/n)
    Quad t = Quad(1) / n, s = 0, n2 = Quad(n) * n;
    for(int k = 1; fabsq(t) > 1e-40; k += 2, t /= -n2)
        s += t / k;
    return s;
}
static Quad pi() { return 16 * arctan_inv(5) - 4 * arctan_inv(239); }
static Quad exp(Quad x) {
    Quad y = x / 1024, t = 1, s = 1;
    for(int k = 1; fabsq(t) > 1e-45; ++k)
        t *= y / k, s += t;
    for(int k = 0; k < 10; ++k)
        s *= s;
    return s;
}
//! loses no digits to repeated squaring: e itself by its series
static Quad e() {
    Quad t = 1, s = 1;
    for(int k = 1; k < 60; ++k)
        t /= k, s += t;
    return s;
}
static Quad log(Quad x) {  // Newton from the library's guess, on our own exponential
    Quad y = logq(x);
    for(int i = 0; i < 2; ++i)
        y += x / exp(y) - 1;
    return y;
}
static Quad sqrt(Quad x) {
    Quad r = std::sqrt((double)x);
    for(int i = 0; i < 6; ++i)
        r = (r + x / r) / 2;
    return r;
}
static Quad cbrt(Quad x) {
    Quad r = std::cbrt((double)x);
    for(int i = 0; i < 6; ++i)
        r -= (r * r * r - x) / (3 * r * r);
    return r;
}
static Quad fibonacci() {
    Quad a = 1, b = 1, s = 0;
    for(int i = 0; i < 400; ++i) {
        s += 1 / a;
        Quad c = a + b;
        a = b, b = c;
    }
    return s;
}
static Quad catalan() {  // pi/8 ln(2+sqrt 3) + 3/8 sum 1/((2k+1)^2 C(2k,k))
    Quad s = 0, c = 1;
    for(int k = 0; k < 120; ++k) {
        s += 1 / ((Quad)(2 * k + 1) * (2 * k + 1) * c);
        c *= Quad(2 * k + 1) * (2 * k + 2) / ((Quad)(k + 1) * (k + 1));
    }
    return pi() / 8 * log(2 + sqrt(3)) + 3 * s / 8;
}
static Quad euler() {  // Brent-McMillan with n = 16
    const Quad n = 16;
    Quad a = -log(n), b = 1, u = a, v = b;
    for(int k = 1; k < 200; ++k) {
        b *= n * n / (Quad(k) * k);
        a = (a * n * n / k + b) / k;
        u += a, v += b;
    }
    return u / v;
}
static Quad gauss() {
    Quad a = 1, b = sqrt(2);
    for(int i = 0; i < 12; ++i) {
        Quad m = (a + b) / 2;
        b      = sqrt(a * b);
        a      = m;
    }
    return 1 / a;
}
static Quad plastic() {
    Quad x = 1.3;
    for(int i = 0; i < 12; ++i)
        x -= (x * x * x - x - 1) / (3 * x * x - 1);
    return x;
}
static Quad zeta3() {  // 5/2 sum (-1)^(k-1) / (k^3 C(2k,k))
    Quad s = 0, c = 1;
    for(int k = 1; k < 120; ++k) {
        c *= Quad(2 * k - 1) * (2 * k) / (Quad(k) * k);
        s += (k % 2 ? 1 : -1) / (Quad(k) * k * k * c);
    }
    return 5 * s / 2;
}
}  // namespace ref
template<typename T>
void constant(const char* name, T got, Quad want) {
    int e;
    std::frexp((long double)want, &e);
    const Quad ulp = scalbnq(1, e - std::numeric_limits<T>::digits);
    mc::log("%s_v<%s>\n", name, type_name<T>);
    REQUIRE(fabsq((Quad)got - want) <= ulp * Quad(0.501), "%s_v<%s> is %s, expected %s", name, type_name<T>, show(got).c_str(), show(want).c_str());
    mc::evaluated_once();
}
static void constants() {
    mc::begin_case();
    const Quad pi = ref::pi(), e = ref::e();
    REQUIRE(fabsq(ref::exp(1) - e) < 1e-29 && fabsq(ref::log(e) - 1) < 1e-29 && fabsq(pi - acosq(-1)) < 1e-32 && fabsq(e - expq(1)) < 1e-32, "harness: the references disagree");
#define CONSTANT(name, value)                                                                                           \
    constant<float>(#name, xm::name##_v<float>, value), constant<double>(#name, xm::name##_v<double>, value),           \
      constant<long double>(#name, xm::name##_v<long double>, value), constant<double>(#name, xm::name, value);         \
    static_assert(std::is_same_v<decltype(xm::name), const double> && std::is_same_v<decltype(xm::name##_v<float>), const float>)
    CONSTANT(e, e);
    CONSTANT(e_sqr, e * e);
    CONSTANT(e_pow_pi, ref::exp(pi));
    CONSTANT(pi, pi);
    CONSTANT(two_pi, 2 * pi);
    CONSTANT(two_over_pi, 2 / pi);
    CONSTANT(pi_over_two, pi / 2);
    CONSTANT(pi_sqr, pi * pi);
    CONSTANT(inv_pi, 1 / pi);
    CONSTANT(tau, 2 * pi);
    CONSTANT(log2_e, 1 / ref::log(2));
    CONSTANT(log10_e, 1 / ref::log(10));
    CONSTANT(ln_two, ref::log(2));
    CONSTANT(ln_ten, ref::log(10));
    CONSTANT(sqrt_two, ref::sqrt(2));
    CONSTANT(sqrt_three, ref::sqrt(3));
    CONSTANT(sqrt_five, ref::sqrt(5));
    CONSTANT(sqrt_e, ref::sqrt(e));
    CONSTANT(sqrt_pi, ref::sqrt(pi));
    CONSTANT(sqrt_two_pi, ref::sqrt(2 * pi));
    CONSTANT(sqrt_two_pi_e, ref::sqrt(2 * pi * e));
    CONSTANT(inv_sqrt_pi, 1 / ref::sqrt(pi));
    CONSTANT(cbrt_two, ref::cbrt(2));
    CONSTANT(inv_fibonacci, ref::fibonacci());
    CONSTANT(phi, (1 + ref::sqrt(5)) / 2);
    CONSTANT(catalan, ref::catalan());
    CONSTANT(euler, ref::euler());
    CONSTANT(gauss, ref::gauss());
    CONSTANT(plastic, ref::plastic());
    CONSTANT(zeta_two, pi * pi / 6);
    CONSTANT(zeta_three, ref::zeta3());
    CONSTANT(zeta_four, pi * pi * pi * pi / 90);
    mc::sample(mc::g_trail->log);
}

// ---- sign -------------------------------------------------------------------------------------------
template<typename T>
void one_sign(T n) {
    const T want = std::signbit((long double)n) && n != 0 ? T(-1) : n == 0 ? T(0) : T(1);
    REQUIRE(xm::sign(n) == want, "sign(%Lg) of %s is %Lg", (long double)n, type_name<T>, (long double)xm::sign(n));
    static_assert(std::is_same_v<decltype(xm::sign(n)), T> && noexcept(xm::sign(n)));
    mc::evaluated_once(n != 0);
}
template<typename T>
void all_signs() {
    mc::begin_case(), mc::log("sign of every %s", type_name<T>);
    for(long n = std::numeric_limits<T>::min(); n <= std::numeric_limits<T>::max(); ++n)
        one_sign<T>(T(n));
    mc::sample(mc::g_trail->log);
}
template<typename T>
void wide_signs() {
    mc::begin_case(), mc::log("sign of every power of two of %s and its neighbours", type_name<T>);
    using L = std::numeric_limits<T>;
    if constexpr(std::is_integral_v<T>) {
        for(int b = 0; b < L::digits; ++b)
            for(int d = -2; d <= 2; ++d) {
                const T v = T(T(1) << b) + d;
                one_sign<T>(v), one_sign<T>(T(-v));
            }
        for(T d = 0; d < 4; ++d)
            one_sign<T>(L::min() + d), one_sign<T>(L::max() - d);
    }
    else {
        for(int e = L::min_exponent - L::digits; e <= L::max_exponent; ++e)
            for(T m : {T(0.5), T(0.75), T(1) - L::epsilon() / 2})
                for(T s : {T(1), T(-1)})
                    one_sign<T>(s * std::ldexp(m, e));
        for(T v : {T(0), T(-0.0), L::infinity(), -L::infinity(), L::max(), L::lowest(), L::denorm_min(), -L::denorm_min()})
            one_sign<T>(v);
    }
    mc::sample(mc::g_trail->log);
}
constexpr bool constant_signs = xm::sign(-3) == -1 && xm::sign(0) == 0 && xm::sign(7L) == 1 && xm::sign(-0.5f) == -1 && xm::sign(0.0) == 0 && xm::sign(2.5L) == 1;
static_assert(constant_signs);
template<typename T> concept has_sign = requires(T t) { xm::sign(t); };
static_assert(has_sign<int> && has_sign<signed char> && has_sign<float> && has_sign<long double> && !has_sign<unsigned> && !has_sign<unsigned char> && !has_sign<bool> && !has_sign<int*>);

// ---- floats, by their bits --------------------------------------------------------------------------
#if defined(__SANITIZE_ADDRESS__)
constexpr int quick_bits = 19, thorough_bits = 26;
#else
constexpr int quick_bits = 25, thorough_bits = 32;
#endif
static bool near(double got, double want, double ulps) {
    if(std::isnan(want))
        return std::isnan(got);
    if(std::isinf(want) || want == 0)
        return got == want;
    if(std::abs(want) > std::numeric_limits<float>::max() * 0.999999)
        return std::isinf(got) || std::abs(got) >= std::numeric_limits<float>::max() * 0.99999;
    const double eps = std::numeric_limits<float>::epsilon(), tiny = std::numeric_limits<float>::denorm_min();
    return std::abs(got - want) <= ulps * (eps * std::abs(want) + tiny) && std::signbit(got) == std::signbit(want);
}
//! calls f(x) for every float (whose low bits are zero, in the quick tier)
template<typename F>
void floats(const char* what, F&& f) {
    mc::begin_case(), mc::log("%s of every float whose low %d bits are zero", what, 32 - (mc::thorough ? thorough_bits : quick_bits));
    const int bits = mc::thorough ? thorough_bits : quick_bits;
    for(std::uint64_t i = mc::g_shard; i < (1ull << bits); i += mc::g_shards) {
        const float x = std::bit_cast<float>(std::uint32_t(i << (32 - bits)));
        f(x);
        mc::evaluated_once();
    }
    mc::sample(mc::g_trail->log);
}
#define NEAR(call, want, ulps)                                                                                                         \
    do {                                                                                                                               \
        const float g_ = call;                                                                                                         \
        const double w_ = want;                                                                                                        \
        REQUIRE(near(g_, w_, ulps), "%s for x = %a (%.9g) is %.9g, expected %.12g", #call, x, x, g_, w_);                              \
    } while(0)
static void float_signs() {
    floats("sign", [](float x) {
        if(!std::isnan(x))
            REQUIRE(xm::sign(x) == (x == 0 ? 0 : std::signbit(x) ? -1 : 1), "sign(%a) is %g", x, xm::sign(x));
    });
}
static void float_angles() {
    const double pi = (double)ref::pi();
    floats("radians, degrees", [&](float x) {
        NEAR(xm::radians(x), x * (pi / 180), 4);
        NEAR(xm::degrees(x), x * (180 / pi), 4);
    });
}
static void float_functions() {
    static_assert(std::is_same_v<decltype(xm::sec(1.f)), float> && std::is_same_v<decltype(xm::arctan(1.f)), float> && std::is_same_v<decltype(xm::sin(1.f)), float>);
    floats("trigonometric functions", [](float x) {
        const double d = x, s = std::sin(d), c = std::cos(d);
        NEAR(xm::sin(x), s, 2);
        NEAR(xm::cos(x), c, 2);
        NEAR(xm::tan(x), s / c, 2);
        NEAR(xm::sec(x), 1 / c, 4);
        NEAR(xm::csc(x), 1 / s, 4);
        NEAR(xm::cot(x), c / s, 4);
        NEAR(xm::arcsin(x), std::asin(d), 2);
        NEAR(xm::arccos(x), std::acos(d), 2);
        NEAR(xm::arctan(x), std::atan(d), 2);
    });
}

// ---- grids in the wider types -----------------------------------------------------------------------
template<typename T>
void close(const char* what, T x, T got, Quad want, Quad scale = 1) {
    const Quad eps = std::numeric_limits<T>::epsilon();
    const bool ok  = isnanq(want) ? std::isnan(got) : isinfq(want) ? (Quad)got == want : fabsq((Quad)got - want) <= 4 * eps * (fabsq(want) * scale);
    REQUIRE(ok, "%s(%s) of %s is %s, expected %s", what, show(x).c_str(), type_name<T>, show(got).c_str(), show(want).c_str());
    mc::evaluated_once();
}
template<typename T>
void one_angle(T x) {
    const Quad q = x, pi = ref::pi();
    close<T>("radians", x, xm::radians(x), q * pi / 180);
    close<T>("degrees", x, xm::degrees(x), q * 180 / pi);
    close<T>("degrees after radians", x, xm::degrees(xm::radians(x)), q);
    close<T>("radians after degrees", x, xm::radians(xm::degrees(x)), q);
}
template<typename T>
void one_argument(T x) {
    const Quad q = x;
    close<T>("sin", x, xm::sin(x), sinq(q));
    close<T>("cos", x, xm::cos(x), cosq(q));
    close<T>("tan", x, xm::tan(x), tanq(q));
    close<T>("sec", x, xm::sec(x), 1 / cosq(q));
    if(x != 0) {
        close<T>("csc", x, xm::csc(x), 1 / sinq(q));
        close<T>("cot", x, xm::cot(x), 1 / tanq(q));
    }
    close<T>("arctan", x, xm::arctan(x), atanq(q));
    if(x >= -1 && x <= 1) {
        close<T>("arcsin", x, xm::arcsin(x), asinq(q));
        close<T>("arccos", x, xm::arccos(x), acosq(q));
    }
    else {
        REQUIRE(std::isnan(xm::arcsin(x)) && std::isnan(xm::arccos(x)), "arcsin or arccos of %s", show(x).c_str());
    }
}
template<typename T>
void grids() {
    mc::begin_case(), mc::log("angles and trigonometric functions of %s", type_name<T>);
    static_assert(std::is_same_v<decltype(xm::radians(T())), T> && std::is_same_v<decltype(xm::degrees(T())), T> && std::is_same_v<decltype(xm::sec(T())), T>
                  && std::is_same_v<decltype(xm::csc(T())), T> && std::is_same_v<decltype(xm::cot(T())), T> && std::is_same_v<decltype(xm::arcsin(T())), T>
                  && std::is_same_v<decltype(xm::arccos(T())), T> && std::is_same_v<decltype(xm::arctan(T())), T>);
    const int steps = mc::thorough ? 200000 : 4000;
    for(int i = -steps; i <= steps; ++i) {
        one_angle<T>(T(i) * 720 / steps);
        one_argument<T>(T(i) * 10 / steps);
        one_argument<T>(T(i) / steps);
    }
    for(int d = -720; d <= 720; ++d) {
        one_angle<T>(T(d));
        one_argument<T>(xm::radians(T(d)));
    }
    for(int e = -900; e <= 900; e += 7)
        if(e > std::numeric_limits<T>::min_exponent + 20 && e < std::numeric_limits<T>::max_exponent - 20) {
            one_angle<T>(std::ldexp(T(1.1), e)), one_angle<T>(-std::ldexp(T(0.7), e));
            if(e < 40)
                one_argument<T>(std::ldexp(T(1.1), e)), one_argument<T>(-std::ldexp(T(0.7), e));
        }
    mc::sample(mc::g_trail->log);
}
static void integers() {
    mc::begin_case(), mc::log("trigonometric functions of integers");
    static_assert(std::is_same_v<decltype(xm::sec(1)), double> && std::is_same_v<decltype(xm::arctan(1)), double>);
    for(int i = -1000; i <= 1000; ++i) {
        close<double>("sec", i, xm::sec(i), 1 / cosq(i));
        if(i) {
            close<double>("csc", i, xm::csc(i), 1 / sinq(i));
            close<double>("cot", i, xm::cot(i), 1 / tanq(i));
        }
        close<double>("arctan", i, xm::arctan(i), atanq(i));
    }
    for(int i = -1; i <= 1; ++i)
        close<double>("arcsin", i, xm::arcsin(i), asinq(i)), close<double>("arccos", i, xm::arccos(i), acosq(i));
    mc::sample(mc::g_trail->log);
}
static void setup() {
    mc::add("constants", constants);
    mc::add("signs", [] { all_signs<signed char>(), all_signs<short>(), wide_signs<int>(), wide_signs<long>(), wide_signs<long long>(), wide_signs<float>(), wide_signs<double>(), wide_signs<long double>(); });
    mc::add("float-signs", float_signs, 4);
    mc::add("float-angles", float_angles, 4);
    mc::add("float-functions", float_functions, 8);
    mc::add("grid-float", grids<float>);
    mc::add("grid-double", grids<double>);
    mc::add("grid-long-double", grids<long double>);
    mc::add("integers", integers);
}
MC_MAIN(setup)
