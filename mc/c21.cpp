// C21: matrices of every shape against nested arrays and the definitions of linear algebra.
#include "mc.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <compare>
#include <limits>
#include <string>
#include <type_traits>
#include <utility>
#include <xme/math/glsl_mapping.hpp>
#include <xme/math/matrix.hpp>

using xme::math::Matrix;
using xme::math::Vector;

template<typename T, std::size_t C, std::size_t R>
struct Arr {  // [column][row]
    std::array<std::array<T, R>, C> a{};
    T& operator()(std::size_t c, std::size_t r) { return a[c][r]; }
    const T& operator()(std::size_t c, std::size_t r) const { return a[c][r]; }
    bool operator==(const Arr&) const = default;
};
template<typename T, std::size_t C, std::size_t R>
std::string show(const Arr<T, C, R>& m) {
    std::string s;
    for(std::size_t c = 0; c < C; ++c) {
        s += c ? "; " : "[";
        for(std::size_t r = 0; r < R; ++r) {
            char b[32];
            std::snprintf(b, sizeof b, "%s%g", r ? " " : "", (double)m(c, r));
            s += b;
        }
    }
    return s + "]";
}
template<typename T, std::size_t C, std::size_t R>
Matrix<T, C, R> make(const Arr<T, C, R>& a) {
    Matrix<T, C, R> m;
    for(std::size_t c = 0; c < C; ++c)
        for(std::size_t r = 0; r < R; ++r)
            m[c][r] = a(c, r);
    return m;
}
template<typename T, std::size_t C, std::size_t R>
Arr<T, C, R> read(const Matrix<T, C, R>& m) {
    Arr<T, C, R> a;
    for(std::size_t c = 0; c < C; ++c)
        for(std::size_t r = 0; r < R; ++r)
            a(c, r) = m[c][r];
    return a;
}
template<typename T, std::size_t N>
std::array<T, N> read(const Vector<T, N>& v) {
    std::array<T, N> a;
    for(std::size_t i = 0; i < N; ++i)
        a[i] = v[i];
    return a;
}
template<typename T, std::size_t N>
Vector<T, N> vec(const std::array<T, N>& a) {
    Vector<T, N> v;
    for(std::size_t i = 0; i < N; ++i)
        v[i] = a[i];
    return v;
}
static std::string show_v(const auto& a) {
    std::string s = "(";
    for(auto x : a)
        s += std::to_string((double)x) + " ";
    return s + ")";
}
template<typename T> constexpr const char* type_name = std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : "long double";

template<typename T, std::size_t C, std::size_t R, typename... Ctx>
void check(const Matrix<T, C, R>& got, const Arr<T, C, R>& want, const char* what, const Ctx&... ctx) {
    mc::evaluated_once();
    auto g = read(got);
    if(!(g == want)) {
        std::string s;
        ((s += " " + show(ctx)), ...);
        mc::fail("%s of%s gives %s, expected %s", what, s.c_str(), show(g).c_str(), show(want).c_str());
    }
}
template<typename T, std::size_t N, typename... Ctx>
void check(const Vector<T, N>& got, const std::array<T, N>& want, const char* what, const Ctx&... ctx) {
    mc::evaluated_once();
    if(auto g = read(got); g != want) {
        std::string s;
        ((s += " " + show(ctx)), ...);
        mc::fail("%s of%s gives %s, expected %s", what, s.c_str(), show_v(g).c_str(), show_v(want).c_str());
    }
}
#define SAME_TYPE(expr, type) static_assert(std::is_same_v<std::remove_cvref_t<decltype(expr)>, type>, "the result has another type")

//! the matrices an operation is tried on: all with entries from few values if there are not too many of them, basis matrices otherwise, and matrices of distinct entries
template<typename T, std::size_t C, std::size_t R>
std::vector<Arr<T, C, R>> matrices(std::size_t most) {
    std::vector<Arr<T, C, R>> out;
    for(int kind = 0; kind < 4; ++kind) {
        Arr<T, C, R> m;
        for(std::size_t c = 0; c < C; ++c)
            for(std::size_t r = 0; r < R; ++r) {
                const int i = (int)(c * R + r);
                m(c, r)     = T(kind == 0 ? i + 1 : kind == 1 ? (i % 2 ? -1 : 1) * (2 * i + 3) : kind == 2 ? (i * 7 + 3) % 11 - 5 + 0.5 : (c == r));
            }
        out.push_back(m);
    }
    const int vals[] = {0, 1, -2};
    for(int k : {3, 2}) {
        double n = std::pow(k, C * R);
        if(n > (double)most)
            continue;
        for(std::size_t code = 0; code < (std::size_t)n; ++code) {
            Arr<T, C, R> m;
            std::size_t x = code;
            for(auto& col : m.a)
                for(T& e : col)
                    e = T(vals[x % k]), x /= k;
            out.push_back(m);
        }
        return out;
    }
    for(std::size_t i = 0; i < C * R; ++i)
        for(T v : {T(1), T(-3)}) {
            Arr<T, C, R> m;
            m.a[i / R][i % R] = v;
            out.push_back(m);
        }
    return out;
}

// ---- one matrix -----------------------------------------------------------------------------------
template<std::size_t N, typename T>
T leibniz(const Arr<T, N, N>& m) {
    std::array<int, N> p;
    for(std::size_t i = 0; i < N; ++i)
        p[i] = i;
    T sum = 0;
    do {
        T t = 1;
        for(std::size_t i = 0; i < N; ++i) {
            t *= m(i, p[i]);
            for(std::size_t j = 0; j < i; ++j)
                if(p[j] > p[i])
                    t = -t;
        }
        sum += t;
    } while(std::next_permutation(p.begin(), p.end()));
    return sum;
}
template<typename T, std::size_t C, std::size_t R>
void unary() {
    using Mt = Matrix<T, C, R>;
    static_assert(Mt::columns == C && Mt::rows == R && std::is_same_v<typename Mt::row_type, Vector<T, C>> && std::is_same_v<typename Mt::column_type, Vector<T, R>>);
    static_assert(sizeof(Mt) == sizeof(T) * C * R && std::is_trivially_copyable_v<Mt>);
    mc::g_trail->loglen = 0;
    mc::log("one Matrix<%s, %zu, %zu>", type_name<T>, C, R);
    using Other = std::conditional_t<std::is_same_v<T, float>, double, float>;
    for(const auto& a : matrices<T, C, R>(mc::thorough ? 1u << 21 : 1u << 16)) {
        const Mt m = make(a);
        Arr<T, C, R> neg;
        Arr<T, R, C> tr;
        for(std::size_t c = 0; c < C; ++c)
            for(std::size_t r = 0; r < R; ++r)
                neg(c, r) = -a(c, r), tr(r, c) = a(c, r);
        SAME_TYPE(-m, Mt);
        check(-m, neg, "unary -", a);
        SAME_TYPE(transpose(m), decltype(make(tr)));
        check(transpose(m), tr, "transpose", a);
        for(std::size_t r = 0; r < R; ++r) {
            std::array<T, C> row;
            for(std::size_t c = 0; c < C; ++c)
                row[c] = a(c, r);
            check(m.row(r), row, "row", a);
        }
        for(std::size_t c = 0; c < C; ++c)
            check(m.column(c), a.a[c], "column", a);
        if constexpr(C == R && C >= 2 && C <= 4) {
            const T d = determinant(m);
            REQUIRE(d == leibniz<C>(a), "the determinant of %s is %g, expected %g", show(a).c_str(), (double)d, (double)leibniz<C>(a));
            SAME_TYPE(determinant(m), T);
            mc::evaluated_once();
            if constexpr(C == 4) {
                REQUIRE(m.determinant() == d, "the member determinant of %s is %g", show(a).c_str(), (double)m.determinant());
                check(m.transpose(), tr, "the member transpose", a);
            }
        }
        {  // columns, copies and other element types
            auto cols = [&]<std::size_t... I>(std::index_sequence<I...>) { return Mt(vec(a.a[I])...); }(std::make_index_sequence<C>{});
            check(cols, a, "construction from the columns", a);
            Mt copy = m, assigned;
            assigned = m;
            check(copy, a, "copy", a);
            check(assigned, a, "assignment", a);
            Arr<Other, C, R> o;
            for(std::size_t c = 0; c < C; ++c)
                for(std::size_t r = 0; r < R; ++r)
                    o(c, r) = static_cast<Other>(a(c, r));
            const auto om = make(o);
            check(Matrix<Other, C, R>(m), o, "conversion", a);
            Matrix<Other, C, R> oa;
            REQUIRE(&(oa = m) == &oa, "= does not return its left side");
            check(oa, o, "converting assignment", a);
            auto ocols = [&]<std::size_t... I>(std::index_sequence<I...>) { return Mt(vec(o.a[I])...); }(std::make_index_sequence<C>{});
            check(ocols, a, "construction from columns of another type", a);
            REQUIRE(m == copy && !(m != copy) && (m <=> copy) == 0, "a copy is not equal");
        }
        if constexpr(C == 3 && R == 3) {
            Arr<T, 4, 4> big;
            for(std::size_t c = 0; c < 3; ++c)
                for(std::size_t r = 0; r < 3; ++r)
                    big(c, r) = a(c, r);
            big(3, 3) = 1;
            check(Matrix<T, 4, 4>(m), big, "4x4 from 3x3", a);
            Arr<Other, 4, 4> obig;
            for(std::size_t c = 0; c < 4; ++c)
                for(std::size_t r = 0; r < 4; ++r)
                    obig(c, r) = static_cast<Other>(big(c, r));
            check(Matrix<Other, 4, 4>(m), obig, "4x4 of another type from 3x3", a);
        }
        auto scalar = [&](auto s) {
            const T t = static_cast<T>(s);
            Arr<T, C, R> e[4];
            for(std::size_t c = 0; c < C; ++c)
                for(std::size_t r = 0; r < R; ++r) {
                    e[0](c, r) = a(c, r) + t, e[1](c, r) = a(c, r) - t, e[2](c, r) = a(c, r) * t;
                    if(t != 0)
                        e[3](c, r) = a(c, r) / t;
                }
            SAME_TYPE(m * s, Mt);
            check(m * s, e[2], "* scalar", a);
            Mt x = m;
            REQUIRE(&(x *= s) == &x, "*= does not return its left side");
            check(x, e[2], "*= scalar", a);
            check(m + s, e[0], "+ scalar", a);
            check(m - s, e[1], "- scalar", a);
            x = m;
            REQUIRE(&(x += s) == &x, "+= does not return its left side");
            check(x, e[0], "+= scalar", a);
            x = m;
            REQUIRE(&(x -= s) == &x, "-= does not return its left side");
            check(x, e[1], "-= scalar", a);
            if(t != 0) {
                check(m / s, e[3], "/ scalar", a);
                x = m;
                REQUIRE(&(x /= s) == &x, "/= does not return its left side");
                check(x, e[3], "/= scalar", a);
            }
        };
        scalar(T(0.5)), scalar(T(0)), scalar(-3), scalar(2.25), scalar(1.5f), scalar(4u);
        {  // an entry of the matrix as operand
            for(std::size_t i = 0; i < C * R; i += C * R > 1 ? C * R - 1 : 1) {
                const T t = a(i / R, i % R);
                Mt x      = m;
                Arr<T, C, R> e;
                for(std::size_t c = 0; c < C; ++c)
                    for(std::size_t r = 0; r < R; ++r)
                        e(c, r) = a(c, r) * t;
                x *= x[i / R][i % R];
                check(x, e, "*= one of its entries", a);
            }
        }
        check(m, a, "an operand after the operations", a);
    }
    // diagonal construction
    for(int s : {0, 1, -3, 7}) {
        Arr<T, C, R> d;
        for(std::size_t i = 0; i < std::min(C, R); ++i)
            d(i, i) = T(s);
        check(Mt(s), d, "diagonal matrix");
        check(Mt(T(s)), d, "diagonal matrix");
        check(Mt(double(s)), d, "diagonal matrix");
        if(s == 1)
            check(Mt(), d, "default");
    }
    // names, addresses and single writes
    for(std::size_t i = 0; i < C * R; ++i) {
        Arr<T, C, R> a = matrices<T, C, R>(0)[0];
        Mt m           = make(a);
        a(i / R, i % R) = -77;
        m[i / R][i % R] = -77;
        check(m, a, "writing an entry", a);
        REQUIRE(&std::as_const(m)[i / R][i % R] == reinterpret_cast<T*>(&m) + i, "entries are not stored column by column");
        static_assert(std::is_same_v<decltype(m[0]), Vector<T, R>&> && std::is_same_v<decltype(std::as_const(m)[0]), const Vector<T, R>&>);
    }
    mc::sample(mc::g_trail->log);
}

// ---- two matrices of one shape, and vectors ---------------------------------------------------------
template<typename T, std::size_t C, std::size_t R>
void binary() {
    using Mt    = Matrix<T, C, R>;
    using Other = std::conditional_t<std::is_same_v<T, float>, double, float>;
    mc::g_trail->loglen = 0;
    mc::log("two of Matrix<%s, %zu, %zu>", type_name<T>, C, R);
    const auto all = matrices<T, C, R>(mc::thorough ? 7000 : 2200);
    for(const auto& a : all) {
        const Mt m = make(a);
        for(const auto& b : all) {
            const Mt n = make(b);
            Arr<T, C, R> e[3];
            for(std::size_t c = 0; c < C; ++c)
                for(std::size_t r = 0; r < R; ++r)
                    e[0](c, r) = a(c, r) + b(c, r), e[1](c, r) = a(c, r) - b(c, r), e[2](c, r) = a(c, r) * b(c, r);
            SAME_TYPE(m + n, Mt);
            check(m + n, e[0], "+", a, b);
            check(m - n, e[1], "-", a, b);
            check(hadamard_product(m, n), e[2], "hadamard_product", a, b);
            Mt x = m, y = m;
            REQUIRE(&(x += n) == &x && &(y -= n) == &y, "an assigning operator does not return its left side");
            check(x, e[0], "+=", a, b);
            check(y, e[1], "-=", a, b);
            const bool eq = a == b;
            auto cmp      = std::lexicographical_compare_three_way(a.a.begin(), a.a.end(), b.a.begin(), b.a.end(), [](const auto& p, const auto& q) {
                return std::lexicographical_compare_three_way(p.begin(), p.end(), q.begin(), q.end());
            });
            REQUIRE((m == n) == eq && (m != n) == !eq, "%s == %s", show(a).c_str(), show(b).c_str());
            REQUIRE((m <=> n) == cmp && (m < n) == (cmp < 0) && (m >= n) == (cmp >= 0), "%s <=> %s", show(a).c_str(), show(b).c_str());
            mc::evaluated_once();
            REQUIRE(read(m) == a && read(n) == b, "an operand was changed");
        }
        {  // the same matrix on both sides, and one of another element type
            Arr<T, C, R> dbl, zero;
            for(std::size_t c = 0; c < C; ++c)
                for(std::size_t r = 0; r < R; ++r)
                    dbl(c, r) = a(c, r) + a(c, r);
            Mt x = m;
            x += x;
            check(x, dbl, "+= itself", a);
            x -= x;
            check(x, zero, "-= itself", a);
            const Matrix<Other, C, R> o(m);
            x = m;
            x += o;
            check(x, dbl, "+= of another type", a);
            check(m + o, dbl, "+ of another type", a);
            SAME_TYPE(m + o, Mt);
            check(m - o, zero, "- of another type", a);
            x -= o;
            check(x, a, "-= of another type", a);
            x = x;
            check(x, a, "assignment to itself", a);
        }
        // times a vector: basis vectors, and one of distinct components
        for(std::size_t k = 0; k <= C; ++k) {
            std::array<T, C> v{};
            for(std::size_t i = 0; i < C; ++i)
                v[i] = k < C ? T(i == k) : T(3 * i) - 4;
            std::array<T, R> e{};
            for(std::size_t r = 0; r < R; ++r)
                for(std::size_t c = 0; c < C; ++c)
                    e[r] += a(c, r) * v[c];
            SAME_TYPE(m * vec(v), decltype(vec(e)));
            check(m * vec(v), e, "* vector", a);
        }
    }
    // outer products
    for(int k = 0; k < (1 << (C + R)); ++k)
        for(T scale : {T(1), T(-3)}) {
            std::array<T, R> u;
            std::array<T, C> v;
            for(std::size_t i = 0; i < R; ++i)
                u[i] = (k >> i & 1) ? scale * T(i + 1) : T(0);
            for(std::size_t i = 0; i < C; ++i)
                v[i] = (k >> (R + i) & 1) ? T(2 * i + 1) : T(0);
            Arr<T, C, R> e;
            for(std::size_t c = 0; c < C; ++c)
                for(std::size_t r = 0; r < R; ++r)
                    e(c, r) = u[r] * v[c];
            SAME_TYPE(outer_product(vec(u), vec(v)), Mt);
            check(outer_product(vec(u), vec(v)), e, "outer_product");
        }
    mc::sample(mc::g_trail->log);
}

// ---- products of every shape -------------------------------------------------------------------------
template<typename T, std::size_t K, std::size_t R, std::size_t C>
void product() {  // (K columns, R rows) * (C columns, K rows)
    mc::g_trail->loglen = 0;
    mc::log("Matrix<%s, %zu, %zu> * Matrix<%s, %zu, %zu>", type_name<T>, K, R, type_name<T>, C, K);
    const std::size_t most = mc::thorough ? 2200 : 600;
    const auto as = matrices<T, K, R>(most);
    const auto bs = matrices<T, C, K>(most);
    for(const auto& a : as) {
        const auto m = make(a);
        for(const auto& b : bs) {
            const auto n = make(b);
            Arr<T, C, R> e;
            for(std::size_t c = 0; c < C; ++c)
                for(std::size_t r = 0; r < R; ++r)
                    for(std::size_t k = 0; k < K; ++k)
                        e(c, r) += a(k, r) * b(c, k);
            SAME_TYPE(m * n, decltype(make(e)));
            check(m * n, e, "*", a, b);
            REQUIRE(read(m) == a && read(n) == b, "an operand of * was changed");
            if constexpr(K == R && K == C) {
                auto x = m;
                x      = x * n;
                check(x, e, "x = x * ", a, b);
                x = n;
                x = m * x;
                check(x, e, "x = * x", a, b);
            }
        }
    }
    mc::sample(mc::g_trail->log);
}

// ---- entries that use the whole precision of their type ------------------------------------------------
template<typename T>
T fine_value(std::size_t i) {
    constexpr T vs[] = {T(1) / T(3), T(1) + std::numeric_limits<T>::epsilon(), -T(1) / T(7), T(2.5L + 1.L / 11), -T(1) / T(9), T(3) / T(13)};
    return vs[i % 6] + T(i / 6) / T(17);
}
template<typename T>
bool close(T got, T want, T scale) {
    return std::abs(got - want) <= 16 * std::numeric_limits<T>::epsilon() * scale;
}
template<typename T, std::size_t C, std::size_t R>
void fine_one() {
    mc::g_trail->loglen = 0;
    mc::log("Matrix<%s, %zu, %zu> of entries of full precision", type_name<T>, C, R);
    using Mt   = Matrix<T, C, R>;
    auto fill  = [](auto a, std::size_t from, std::size_t step) {
        std::size_t i = from;
        for(auto& col : a.a)
            for(T& e : col)
                e = fine_value<T>(i), i += step;
        return a;
    };
    auto near = [](const auto& m, const auto& want, const auto& scale, const char* what) {
        auto g = read(m);
        for(std::size_t c = 0; c < g.a.size(); ++c)
            for(std::size_t r = 0; r < g.a[0].size(); ++r)
                REQUIRE(close(g(c, r), want(c, r), scale(c, r)), "%s gives %.20Lg in column %zu row %zu, not %.20Lg", what, (long double)g(c, r), c, r, (long double)want(c, r));
        mc::evaluated_once();
    };
    auto near_v = [](const auto& v, const auto& want, const auto& scale, const char* what) {
        for(std::size_t i = 0; i < want.size(); ++i)
            REQUIRE(close(v[i], want[i], scale[i]), "%s gives %.20Lg in row %zu, not %.20Lg", what, (long double)v[i], i, (long double)want[i]);
        mc::evaluated_once();
    };
    for(std::size_t p = 0; p < 8; ++p)
        for(std::size_t q = 0; q < 8; ++q) {
            const auto a = fill(Arr<T, C, R>{}, p, 1), b = fill(Arr<T, C, R>{}, q, 5), none = Arr<T, C, R>{};
            const Mt m = make(a), n = make(b);
            const T s = fine_value<T>(q);
            Arr<T, C, R> add, sub, had, sadd, ssub, smul, sdiv, mag, one, neg;
            for(std::size_t c = 0; c < C; ++c)
                for(std::size_t r = 0; r < R; ++r) {
                    const T x = a(c, r), y = b(c, r);
                    add(c, r) = x + y, sub(c, r) = x - y, had(c, r) = x * y, mag(c, r) = std::abs(x) + std::abs(y), neg(c, r) = -x;
                    sadd(c, r) = x + s, ssub(c, r) = x - s, smul(c, r) = x * s, sdiv(c, r) = x / s, one(c, r) = std::abs(x) + std::abs(s) + std::abs(sdiv(c, r));
                }
            auto step = [&](auto f, const Arr<T, C, R>& want, const Arr<T, C, R>& scale, const char* what) {
                Mt x = m;
                f(x);
                near(x, want, scale, what);
            };
            near(m + n, add, mag, "m + n"), near(m - n, sub, mag, "m - n"), near(hadamard_product(m, n), had, mag, "hadamard_product");
            near(m + s, sadd, one, "m + s"), near(m - s, ssub, one, "m - s"), near(m * s, smul, one, "m * s"), near(m / s, sdiv, one, "m / s"), near(-m, neg, none, "-m");
            step([&](Mt& x) { x += n; }, add, mag, "m += n"), step([&](Mt& x) { x -= n; }, sub, mag, "m -= n");
            step([&](Mt& x) { x += s; }, sadd, one, "m += s"), step([&](Mt& x) { x -= s; }, ssub, one, "m -= s"), step([&](Mt& x) { x *= s; }, smul, one, "m *= s");
            step([&](Mt& x) { x /= s; }, sdiv, one, "m /= s");
            near(Mt(m), a, none, "a copy");
            step([&](Mt& x) { x = n; }, b, none, "an assignment");
            Arr<T, C, R> diag;
            for(std::size_t i = 0; i < std::min(C, R); ++i)
                diag(i, i) = s;
            near(Mt(s), diag, none, "a diagonal matrix");
            near([&]<std::size_t... I>(std::index_sequence<I...>) { return Mt(vec(a.a[I])...); }(std::make_index_sequence<C>{}), a, none, "construction from columns");
            Arr<T, R, C> tr;
            for(std::size_t c = 0; c < C; ++c)
                for(std::size_t r = 0; r < R; ++r)
                    tr(r, c) = a(c, r);
            near(transpose(m), tr, Arr<T, R, C>{}, "transpose");
            for(std::size_t r = 0; r < R; ++r)
                near_v(m.row(r), tr.a[r], std::array<T, C>{}, "row");
            for(std::size_t c = 0; c < C; ++c)
                near_v(m.column(c), a.a[c], std::array<T, R>{}, "column");
            // products
            auto times = [&]<std::size_t C2>() {
                const auto o = fill(Arr<T, C2, C>{}, q, 3);
                Arr<T, C2, R> e, scale;
                for(std::size_t c = 0; c < C2; ++c)
                    for(std::size_t r = 0; r < R; ++r)
                        for(std::size_t k = 0; k < C; ++k)
                            e(c, r) += a(k, r) * o(c, k), scale(c, r) += std::abs(a(k, r) * o(c, k));
                near(m * make(o), e, scale, "a product");
            };
            times.template operator()<1>(), times.template operator()<2>(), times.template operator()<3>(), times.template operator()<4>(), times.template operator()<5>();
            std::array<T, C> v;
            std::array<T, R> u, mv{}, mvs{};
            for(std::size_t i = 0; i < C; ++i)
                v[i] = fine_value<T>(q + 2 * i);
            for(std::size_t i = 0; i < R; ++i)
                u[i] = fine_value<T>(p + 3 * i);
            Arr<T, C, R> outer, os;
            for(std::size_t c = 0; c < C; ++c)
                for(std::size_t r = 0; r < R; ++r) {
                    mv[r] += a(c, r) * v[c], mvs[r] += std::abs(a(c, r) * v[c]);
                    outer(c, r) = u[r] * v[c], os(c, r) = std::abs(u[r] * v[c]);
                }
            near_v(m * vec(v), mv, mvs, "m * v");
            near(outer_product(vec(u), vec(v)), outer, os, "outer_product");
            if constexpr(C == R && C >= 2 && C <= 4) {
                auto abs = a;
                for(auto& col : abs.a)
                    for(T& e : col)
                        e = std::abs(e);
                T scale = 24;
                for(const auto& col : abs.a) {
                    T most = 0;
                    for(T e : col)
                        most = std::max(most, e);
                    scale *= std::max(most, T(1));
                }
                const T want = leibniz<C>(a);
                REQUIRE(close(determinant(m), want, scale), "the determinant is %.20Lg, not %.20Lg", (long double)determinant(m), (long double)want);
                if constexpr(C == 4) {
                    REQUIRE(close(m.determinant(), want, scale), "the member determinant is %.20Lg, not %.20Lg", (long double)m.determinant(), (long double)want);
                    near(m.transpose(), tr, none, "the member transpose");
                }
                mc::evaluated_once();
            }
            if constexpr(C == 3 && R == 3) {
                Arr<T, 4, 4> big;
                for(std::size_t c = 0; c < 3; ++c)
                    for(std::size_t r = 0; r < 3; ++r)
                        big(c, r) = a(c, r);
                big(3, 3) = 1;
                near(Matrix<T, 4, 4>(m), big, Arr<T, 4, 4>{}, "4x4 from 3x3");
            }
            // entries that are almost the same are told apart
            auto next = a;
            for(auto& col : next.a)
                for(T& e : col) {
                    const T was = e;
                    e           = std::nextafter(e, T(100));
                    const Mt x  = make(next);
                    REQUIRE(x != m && !(x == m) && m < x && x > m && !(x <= m), "matrices that are almost the same are confused");
                    e = was;
                    mc::evaluated_once();
                }
        }
    mc::sample(mc::g_trail->log);
}
template<typename T, std::size_t C>
void fine() {
    fine_one<T, C, 1>(), fine_one<T, C, 2>(), fine_one<T, C, 3>(), fine_one<T, C, 4>(), fine_one<T, C, 5>();
}

namespace g = xme::math;
template<typename A, typename B>
constexpr bool is = std::is_same_v<A, B>;
static_assert(is<g::mat2, Matrix<float, 2, 2>> && is<g::mat3, Matrix<float, 3, 3>> && is<g::mat4, Matrix<float, 4, 4>> && is<g::dmat2, Matrix<double, 2, 2>>
              && is<g::dmat3, Matrix<double, 3, 3>> && is<g::dmat4, Matrix<double, 4, 4>>);
static_assert(is<g::mat2x2, Matrix<float, 2, 2>> && is<g::mat2x3, Matrix<float, 2, 3>> && is<g::mat2x4, Matrix<float, 2, 4>> && is<g::mat3x2, Matrix<float, 3, 2>>
              && is<g::mat3x3, Matrix<float, 3, 3>> && is<g::mat3x4, Matrix<float, 3, 4>> && is<g::mat4x2, Matrix<float, 4, 2>> && is<g::mat4x3, Matrix<float, 4, 3>>
              && is<g::mat4x4, Matrix<float, 4, 4>>);
static_assert(is<g::dmat2x2, Matrix<double, 2, 2>> && is<g::dmat2x3, Matrix<double, 2, 3>> && is<g::dmat2x4, Matrix<double, 2, 4>> && is<g::dmat3x2, Matrix<double, 3, 2>>
              && is<g::dmat3x3, Matrix<double, 3, 3>> && is<g::dmat3x4, Matrix<double, 3, 4>> && is<g::dmat4x2, Matrix<double, 4, 2>>
              && is<g::dmat4x3, Matrix<double, 4, 3>> && is<g::dmat4x4, Matrix<double, 4, 4>>);
static_assert(is<decltype(Matrix{Vector<float, 3>{}, Vector<float, 3>{}}), Matrix<float, 2, 3>> && is<decltype(Matrix{Vector<float, 2>{}, Vector<double, 2>{}}), Matrix<double, 2, 2>>
              && is<decltype(Matrix{Vector<float, 4>{}, Vector<float, 4>{}, Vector<float, 4>{}, Vector<float, 4>{}}), Matrix<float, 4, 4>>);

#define EACH5(f) f(1) f(2) f(3) f(4) f(5)
template<typename T, std::size_t C>
void shapes() {
    const std::string t = std::string(type_name<T>).substr(0, 4) + "-" + std::to_string(C);
#define ONE(R)                                                               \
    mc::add("unary-" + t + "x" #R, [] { unary<T, C, R>(); });                \
    mc::add("binary-" + t + "x" #R, [] { binary<T, C, R>(); });
    EACH5(ONE)
#undef ONE
#define ONE(R)                                                               \
    mc::add("product-" + t + "x" #R, [] {                                    \
        product<T, C, R, 1>(), product<T, C, R, 2>(), product<T, C, R, 3>(), product<T, C, R, 4>(), product<T, C, R, 5>(); \
    });
    EACH5(ONE)
}
static void setup() {
#if PART < 10
    shapes<float, PART>();
    mc::add("fine-float-" + std::to_string(PART), [] { fine<float, PART>(); });
#else
    shapes<double, PART - 10>();
    mc::add("fine-double-" + std::to_string(PART - 10), [] { fine<double, PART - 10>(); });
    mc::add("fine-long-double-" + std::to_string(PART - 10), [] { fine<long double, PART - 10>(); });
#endif
}
MC_MAIN(setup)
