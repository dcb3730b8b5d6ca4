// C22: transformations and projections over grids of parameters, judged by the points they map.
#include "mc.hpp"
#include <array>
#include <cmath>
#include <limits>
#include <string>
#include <type_traits>
#include <xme/math/matrix.hpp>

using xme::math::Matrix;
using xme::math::Vector;
using Real = long double;
using P4   = std::array<Real, 4>;
static const Real pi = 4 * std::atan(Real(1));

template<typename T> constexpr const char* type_name = std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : std::is_same_v<T, int> ? "int"
                                                     : std::is_same_v<T, short> ? "short" : "long double";
//! the image of p, computed with wide accumulators from the entries
template<typename T>
P4 map(const Matrix<T, 4, 4>& m, const P4& p) {
    P4 r{};
    for(int c = 0; c < 4; ++c)
        for(int i = 0; i < 4; ++i)
            r[i] += (Real)m[c][i] * p[c];
    return r;
}
static std::string show(const P4& p) {
    char b[128];
    std::snprintf(b, sizeof b, "(%Lg %Lg %Lg %Lg)", p[0], p[1], p[2], p[3]);
    return b;
}

// ---- projections ------------------------------------------------------------------------------------
struct Volume {  // in view space, depth d along the viewing direction
    Real left, right, bottom, top, near, far;  // of the near plane (perspective), of every plane (ortho)
    bool perspective;
    Real at(Real lo, Real hi, Real u, Real d) const {
        Real v = (lo + hi) / 2 + u * (hi - lo) / 2;
        return perspective ? v * d / near : v;
    }
};
template<typename T>
void project(const Matrix<T, 4, 4>& m, const Volume& v, int forward, const char* what) {
    const Real skew = 1 + std::abs(v.right + v.left) / std::abs(v.right - v.left) + std::abs(v.top + v.bottom) / std::abs(v.top - v.bottom);
    const Real deep = 1 + (v.far + v.near) / (v.far - v.near);
    const Real eps  = 64 * std::numeric_limits<T>::epsilon();
    const Real us[] = {-1, 1, 0, -0.5, 0.75, -1.25, 2};
    const Real ds[] = {v.near, v.far, v.near + (v.far - v.near) / 2, v.near + (v.far - v.near) / 10, v.near / 2, v.far * 2, -v.near, -v.far};
    for(Real d : ds)
        for(Real u : us)
            for(Real w : us) {
                const P4 p{v.at(v.left, v.right, u, d), v.at(v.bottom, v.top, w, d), forward * d, 1};
                const P4 c = map(m, p);
                const Real want_w = v.perspective ? d : 1;
                REQUIRE(std::abs(c[3] - want_w) <= eps * std::abs(want_w), "%s: the w of %s is %Lg, expected %Lg", what, show(p).c_str(), c[3], want_w);
                const Real z = v.perspective ? ((v.far + v.near) - 2 * v.far * v.near / d) / (v.far - v.near) : (2 * d - (v.far + v.near)) / (v.far - v.near);
                const P4 ndc{c[0] / c[3], c[1] / c[3], c[2] / c[3], 1};
                const bool ok = std::abs(ndc[0] - u) <= eps * skew * (2 + std::abs(u)) && std::abs(ndc[1] - w) <= eps * skew * (2 + std::abs(w))
                             && std::abs(ndc[2] - z) <= eps * (deep + std::abs(z) * deep);
                REQUIRE(ok, "%s maps %s to %s, expected (%Lg %Lg %Lg)", what, show(p).c_str(), show(ndc).c_str(), u, w, z);
                mc::evaluated_once();
            }
}
template<typename T>
void projections() {
    using namespace xme::math;
#if defined(XME_MATH_CLIP_LH)
    const int forward = 1;
#else
    const int forward = -1;
#endif
    const Real nears[] = {0.0625L, 0.1L, 1, 5.5L};
    const Real fars[]  = {1.5L, 3, 20, 1000};
    for(Real n : nears)
        for(Real f : fars) {
            const T tn = T(n), tf = T(n * f);
            for(Real fov : {0.1L, 0.5L, 1.0L, pi / 2, 2.0L, 2.5L, 3.0L})
                for(Real aspect : {0.25L, 0.75L, 1.0L, 16 / 9.0L, 4.0L}) {
                    mc::g_trail->loglen = 0;
                    mc::log("perspective<%s>(fov %Lg, aspect %Lg, near %Lg, far %Lg)", type_name<T>, fov, aspect, n, n * f);
                    const T tv = T(fov), ta = T(aspect);
                    const Real h = std::tan((Real)tv / 2) * tn, w = h * ta;
                    const Volume v{-w, w, -h, h, (Real)tn, (Real)tf, true};
                    static_assert(std::is_same_v<decltype(perspective_rh(tv, ta, tn, tf)), Matrix<T, 4, 4>>);
                    project(perspective_rh(tv, ta, tn, tf), v, -1, "perspective_rh");
                    project(perspective_lh(tv, ta, tn, tf), v, 1, "perspective_lh");
                    project(perspective(tv, ta, tn, tf), v, forward, "perspective");
                }
            const Real sides[][2] = {{-1, 1}, {-2, 2}, {-0.5L, 1.5L}, {1, 3}, {-3, -1}, {0, 1}, {-0.75L, 8}};
            for(auto& x : sides)
                for(auto& y : sides) {
                    mc::g_trail->loglen = 0;
                    mc::log("planes<%s>(%Lg, %Lg, %Lg, %Lg, %Lg, %Lg)", type_name<T>, x[0], x[1], y[0], y[1], n, n * f);
                    const T l = T(x[0]), r = T(x[1]), b = T(y[0]), t = T(y[1]);
                    Volume v{(Real)l, (Real)r, (Real)b, (Real)t, (Real)tn, (Real)tf, true};
                    project(perspective_rh(l, r, b, t, tn, tf), v, -1, "perspective_rh of planes");
                    project(perspective_lh(l, r, b, t, tn, tf), v, 1, "perspective_lh of planes");
                    project(perspective(l, r, b, t, tn, tf), v, forward, "perspective of planes");
                    v.perspective = false;
                    project(ortho_rh(l, r, b, t, tn, tf), v, -1, "ortho_rh");
                    project(ortho_lh(l, r, b, t, tn, tf), v, 1, "ortho_lh");
                    project(ortho(l, r, b, t, tn, tf), v, forward, "ortho");
                }
        }
    // orthographic volumes may begin at or behind the eye
    for(Real n : {0.0L, -1.0L, -20.0L})
        for(Real f : {1.0L, 10.0L}) {
            mc::g_trail->loglen = 0;
            mc::log("ortho<%s> near %Lg far %Lg", type_name<T>, n, f);
            for(int lh = 0; lh < 3; ++lh) {
                const auto m  = lh == 2 ? ortho(T(-1), T(3), T(-2), T(5), T(n), T(f)) : lh ? ortho_lh(T(-1), T(3), T(-2), T(5), T(n), T(f)) : ortho_rh(T(-1), T(3), T(-2), T(5), T(n), T(f));
                const int dir = lh == 2 ? forward : lh ? 1 : -1;
                for(int k = 0; k < 8; ++k) {
                    const P4 c = map(m, P4{k & 1 ? 3.0L : -1.0L, k & 2 ? 5.0L : -2.0L, dir * (k & 4 ? f : n), 1});
                    const P4 e{k & 1 ? 1.0L : -1.0L, k & 2 ? 1.0L : -1.0L, k & 4 ? 1.0L : -1.0L, 1};
                    for(int i = 0; i < 4; ++i)
                        REQUIRE(std::abs(c[i] - e[i]) <= 256 * std::numeric_limits<T>::epsilon(), "ortho maps corner %d to %s", k, show(c).c_str());
                    mc::evaluated_once();
                }
            }
        }
    mc::sample(mc::g_trail->log);
}

// ---- transformations ----------------------------------------------------------------------------------
template<typename T>
std::vector<Matrix<T, 4, 4>> bases() {
    std::vector<Matrix<T, 4, 4>> out;
    out.push_back(Matrix<T, 4, 4>(1));
    out.push_back(Matrix<T, 4, 4>(0));
    for(int kind = 0; kind < 3; ++kind) {
        Matrix<T, 4, 4> m;
        for(int c = 0; c < 4; ++c)
            for(int r = 0; r < 4; ++r)
                m[c][r] = T(kind == 0 ? c * 4 + r + 1 : kind == 1 ? ((c * 5 + r * 3) % 7) - 3 : r == 3 ? (c == 3) : ((c * 3 + r * 5) % 11) - 4);
        out.push_back(m);
    }
    for(int k = 0; k < 16; ++k) {
        Matrix<T, 4, 4> m(0);
        m[k / 4][k % 4] = T(1);
        out.push_back(m);
    }
    return out;
}
static std::vector<P4> points() {
    std::vector<P4> out;
    const Real vs[] = {0, 1, -3};
    for(Real x : vs)
        for(Real y : vs)
            for(Real z : vs)
                for(Real w : {1.0L, 0.0L, 2.0L})
                    out.push_back({x, y, z, w});
    return out;
}
template<typename T, typename F>
void maps(const Matrix<T, 4, 4>& got, const Matrix<T, 4, 4>& m, Real eps, const char* what, F&& expected) {
    static const auto ps = points();
    Real size            = 0;
    for(int c = 0; c < 4; ++c)
        for(int r = 0; r < 4; ++r)
            size = std::max(size, std::abs((Real)m[c][r]));
    for(const P4& p : ps) {
        const P4 g = map(got, p), e = map(m, expected(p));
        for(int i = 0; i < 4; ++i)
            REQUIRE(std::abs(g[i] - e[i]) <= eps * size, "%s: %s is mapped to %s, expected %s", what, show(p).c_str(), show(g).c_str(), show(e).c_str());
        mc::evaluated_once();
    }
}
template<typename T, typename U>
void transforms() {
    using namespace xme::math;
    const auto ms   = bases<T>();
    const Real es[] = {0, 1, -2, 5};
    int mi          = 0;
    for(const auto& m : ms) {
        const auto before = m;
        mc::g_trail->loglen = 0;
        mc::log("matrix %d of %s, vectors of %s", mi++, type_name<T>, type_name<U>);
        for(Real x : es)
            for(Real y : es)
                for(Real z : es) {
                    const Vector<U, 3> v{U(x), U(y), U(z)};
                    static_assert(std::is_same_v<decltype(translate(m, v)), Matrix<T, 4, 4>> && std::is_same_v<decltype(scale(m, v)), Matrix<T, 4, 4>>);
                    maps(translate(m, v), m, 0, "translate", [&](const P4& p) { return P4{p[0] + p[3] * x, p[1] + p[3] * y, p[2] + p[3] * z, p[3]}; });
                    maps(scale(m, v), m, 0, "scale", [&](const P4& p) { return P4{p[0] * x, p[1] * y, p[2] * z, p[3]}; });
                }
        REQUIRE(m == before, "the matrix was changed");
        // fractions, exact in every type
        if constexpr(std::is_floating_point_v<U>) {
            const Vector<U, 3> v{U(0.5), U(-0.25), U(1.5)};
            maps(translate(m, v), m, 0, "translate", [&](const P4& p) { return P4{p[0] + p[3] * 0.5L, p[1] - p[3] * 0.25L, p[2] + p[3] * 1.5L, p[3]}; });
            maps(scale(m, v), m, 0, "scale", [&](const P4& p) { return P4{p[0] * 0.5L, p[1] * -0.25L, p[2] * 1.5L, p[3]}; });
        }
    }
    mc::sample(mc::g_trail->log);
}
template<typename T, typename U, typename A>
void rotations() {
    using namespace xme::math;
    std::vector<std::array<Real, 3>> axes;
    for(int i = 0; i < 3; ++i)
        for(int s : {1, -1}) {
            std::array<Real, 3> a{};
            a[i] = s;
            axes.push_back(a);
        }
    if(std::is_floating_point_v<U>) {
        for(int i = 0; i < 3; ++i)
            for(int s : {1, -1}) {
                std::array<Real, 3> a{};
                a[i] = 0.6L, a[(i + 1) % 3] = 0.8L * s;
                axes.push_back(a);
                a       = {2 / 3.0L, 2 / 3.0L, 2 / 3.0L};
                a[i]    = s / 3.0L;
                axes.push_back(a);
                a                             = {};
                a[(i + 2) % 3]                = -2 / 7.0L;
                a[i]                          = 3 / 7.0L;
                a[(i + 1) % 3]                = s * 6 / 7.0L;
                axes.push_back(a);
            }
    }
    const auto ms = bases<T>();
    const Real eps = 256 * std::max<Real>(std::numeric_limits<T>::epsilon(), std::is_floating_point_v<U> ? std::numeric_limits<U>::epsilon() : 0);
    for(const auto& n : axes)
        for(int k = -24; k <= 24; ++k) {
            const A angle = std::is_integral_v<A> ? A(k) : A(k * pi / 12);
            const T used  = static_cast<T>(angle);
            const Real s = std::sin((Real)used), c = std::cos((Real)used);
            mc::g_trail->loglen = 0;
            mc::log("rotate a matrix of %s about (%Lg %Lg %Lg) of %s by %Lg of %s", type_name<T>, n[0], n[1], n[2], type_name<U>, (Real)angle, type_name<A>);
            const Vector<U, 3> v{U(n[0]), U(n[1]), U(n[2])};
            for(const auto& m : ms) {
                const auto got = rotate(m, angle, v);
                static_assert(std::is_same_v<decltype(rotate(m, angle, v)), Matrix<T, 4, 4>>);
                maps(got, m, eps, "rotate", [&](const P4& p) {  // Rodrigues
                    const Real d = (n[0] * p[0] + n[1] * p[1] + n[2] * p[2]) * (1 - c);
                    return P4{p[0] * c + (n[1] * p[2] - n[2] * p[1]) * s + n[0] * d, p[1] * c + (n[2] * p[0] - n[0] * p[2]) * s + n[1] * d,
                              p[2] * c + (n[0] * p[1] - n[1] * p[0]) * s + n[2] * d, p[3]};
                });
            }
        }
    // a quarter turn about z takes x to y: the sense of the formula above
    const auto q = map(rotate(Matrix<T, 4, 4>(1), T(pi / 2), Vector<T, 3>(T(0), T(0), T(1))), P4{1, 0, 0, 1});
    REQUIRE(std::abs(q[0]) < 1e-5 && std::abs(q[1] - 1) < 1e-5, "a quarter turn about z takes x to %s", show(q).c_str());
    mc::sample(mc::g_trail->log);
}

//! matrices and vectors whose entries use the whole precision of T
template<typename T>
void fine() {
    using namespace xme::math;
    auto value = [](int i) { return T(T(i % 7 - 3) / T(7) + T(i % 5) / T(9) + T(1) / T(3)); };
    for(int from = 0; from < 12; ++from)
        for(int by = 0; by < 12; ++by) {
            mc::g_trail->loglen = 0;
            mc::log("matrix %d, vector %d of full precision in %s", from, by, type_name<T>);
            Matrix<T, 4, 4> m;
            for(int i = 0; i < 16; ++i)
                m[i / 4][i % 4] = value(from + i);
            const Vector<T, 3> v{value(by * 3), value(by * 3 + 1), value(by * 3 + 2)};
            const Real eps = 32 * std::numeric_limits<T>::epsilon();
            const Real x = v[0], y = v[1], z = v[2];
            maps(translate(m, v), m, 16 * eps, "translate", [&](const P4& p) { return P4{p[0] + p[3] * x, p[1] + p[3] * y, p[2] + p[3] * z, p[3]}; });
            maps(scale(m, v), m, 16 * eps, "scale", [&](const P4& p) { return P4{p[0] * x, p[1] * y, p[2] * z, p[3]}; });
            for(int k = 0; k < 5; ++k) {  // an axis of full precision too
                const T angle = value(k) + T(k);
                const Vector<T, 3> n = v / std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
                const Real s = std::sin((Real)angle), c = std::cos((Real)angle);
                const Real nx = n[0], ny = n[1], nz = n[2];
                maps(rotate(m, angle, n), m, 16 * eps, "rotate", [&](const P4& p) {
                    const Real d = (nx * p[0] + ny * p[1] + nz * p[2]) * (1 - c);
                    return P4{p[0] * c + (ny * p[2] - nz * p[1]) * s + nx * d, p[1] * c + (nz * p[0] - nx * p[2]) * s + ny * d, p[2] * c + (nx * p[1] - ny * p[0]) * s + nz * d, p[3]};
                });
            }
        }
    mc::sample(mc::g_trail->log);
}

static void setup() {
    mc::add("fine-float", fine<float>);
    mc::add("fine-double", fine<double>);
    mc::add("fine-long-double", fine<long double>);
    mc::add("transforms-long-double", [] { transforms<long double, long double>(), transforms<long double, float>(), transforms<long double, int>(); });
    mc::add("rotations-long-double", [] { rotations<long double, long double, long double>(), rotations<long double, long double, int>(); });
    mc::add("projections-float", projections<float>);
    mc::add("projections-double", projections<double>);
    mc::add("projections-long-double", projections<long double>);
    mc::add("transforms-float", [] { transforms<float, float>(), transforms<float, int>(), transforms<float, double>(); });
    mc::add("transforms-double", [] { transforms<double, double>(), transforms<double, short>(), transforms<double, float>(); });
    mc::add("rotations-float", [] { rotations<float, float, float>(), rotations<float, int, int>(), rotations<float, double, double>(); });
    mc::add("rotations-double", [] { rotations<double, double, double>(), rotations<double, float, float>(), rotations<double, int, double>(), rotations<double, double, int>(); });
}
MC_MAIN(setup)
