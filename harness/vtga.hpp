// Bridge between GATL's public interface and the reference model.  Include GATL's headers first.
#ifndef VTGA_HPP
#define VTGA_HPP
#include "vt.hpp"
#include "geo.hpp"
#include <array>
#include <cmath>
#include <sstream>
#include <type_traits>

namespace vt {

// Dense copy of a GATL value, read through for_each_component.
template<typename C, typename E>
ref::MV D(int n, ga::clifford_expression<C, E> const &x) {
    ref::MV r(n);
    bool bad = false;
    ga::bitset_t worst = 0;
    ga::for_each_component(x, [&](auto b, auto v, auto, auto, bool &) {
        if (v == decltype(v)(0)) return;
        if (b >> n) { bad = true; worst = b; return; }
        r.c[std::size_t(b)] += static_cast<long double>(v);
    });
    if (bad) throw Fail{"a component lies outside the vector space (bitset " + std::to_string(worst) + ")"};
    return r;
}
template<typename T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0>
ref::MV D(int n, T const &x) { return ref::scalar(n, static_cast<long double>(x)); }

// The same for values whose coefficients are compile-time rational numbers: their declared coefficient type is integral,
// so they are first multiplied by a floating-point one.
template<int Dim, typename T>
ref::MV DQ(T const &x) {
    constexpr int n = Dim;
    if constexpr (ga::is_clifford_expression_v<T>) {
        if constexpr (std::is_integral_v<typename T::coefficient_type>) return D(n, ga::gp(ga::scalar(1.0), x, ga::euclidean_metric_space<Dim>()));
        else return D(n, x);
    }
    else return D(n, x);
}

// Value of a scalar result, read the way DQ reads.
template<typename T>
long double SQ(T const &x) {
    ref::MV const m = DQ<4>(x);
    for (std::size_t i = 1; i < m.c.size(); ++i) if (m.c[i] != 0) throw Fail{"a scalar result has a non-scalar component: " + ref::show(m)};
    return m.c[0];
}

// Value of a scalar result.
template<typename C, typename E>
long double S(ga::clifford_expression<C, E> const &x) {
    ref::MV const m = D(8, x);
    for (std::size_t i = 1; i < m.c.size(); ++i) if (m.c[i] != 0) throw Fail{"a scalar result has a non-scalar component: " + ref::show(m)};
    return m.c[0];
}
template<typename T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0>
long double S(T const &x) { return static_cast<long double>(x); }

// Fills all stored coefficients of a multivector with generated numbers.
template<typename C, typename E>
void fill(Ctx &cx, ga::clifford_expression<C, E> &x) { for (auto &v : x.values()) v = static_cast<C>(cx.num()); }
template<typename C, typename E>
void filli(Ctx &cx, ga::clifford_expression<C, E> &x) { for (auto &v : x.values()) v = static_cast<C>(cx.integer()); }

// Stores the model's value in a multivector all of whose components are stored.
template<typename T>
T from(ref::MV const &m) {
    T x;
    auto it = x.values().begin();
    std::size_t k = 0;
    ga::for_each_component(x, [&](auto b, auto, auto, auto src, bool &) {
        if (src == ga::STORED_RUNTIME_DEFINED_ENTRY) { *(it + k) = static_cast<std::decay_t<decltype(*it)> >(m[unsigned(b)]); ++k; }
    });
    return x;
}

// Generated vectors: k rows with small integer coordinates on the basis vectors of the mask.  With some probability a row
// is a combination of the rows of other.
typedef std::vector<std::vector<ref::R>> Rows;
inline Rows rows(Ctx &cx, int n, unsigned mask, int k, Rows const *other = nullptr) {
    Rows r;
    for (int i = 0; i < k; ++i) {
        std::vector<ref::R> v(n, 0);
        if (other && !other->empty() && cx.flip()) {
            auto const &a = (*other)[cx.draw(0, long(other->size()) - 1)];
            auto const &b = (*other)[cx.draw(0, long(other->size()) - 1)];
            long const s = cx.draw(0, 2);
            for (int j = 0; j < n; ++j) if (mask >> j & 1) v[j] = a[j] + (s == 1 ? b[j] : s == 2 ? -2 * b[j] : 0);
        }
        else for (int j = 0; j < n; ++j) if (mask >> j & 1) v[j] = cx.draw(0, 3) ? ref::R(cx.draw(-3, 3)) : 0;
        r.push_back(v);
    }
    return r;
}
inline Rows with_basis(Rows r, int n, unsigned fixed) {
    for (int j = n - 1; j >= 0; --j) if (fixed >> j & 1) { std::vector<ref::R> v(n, 0); v[j] = 1; r.insert(r.begin(), v); }
    return r;
}

template<typename T> T made_with(Ctx &cx, double (Ctx::*how)()) { T x; for (auto &v : x.values()) v = static_cast<std::decay_t<decltype(v)> >((cx.*how)()); return x; }
template<typename T> T made_of(Ctx &cx) { T x; fill(cx, x); return x; }
template<typename T> T made_ofi(Ctx &cx) { T x; filli(cx, x); return x; }

}

// Unit compile-time basis blade over the given indices.
template<ga::index_t... I> using BB = ga::unit_constant_basis_blade_t<I...>;

#endif
