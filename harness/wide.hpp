// Reference model for sparse multivectors of vector spaces with many dimensions and an orthogonal metric: a map from
// bitsets to coefficients, with products computed basis vector by basis vector.  Only value() below reads GATL's types.
#ifndef VT_WIDE_HPP
#define VT_WIDE_HPP
#include "vt.hpp"
#include <map>
#include <sstream>

namespace wide {

typedef unsigned long long U;
typedef long double R;

struct MV {
    std::map<U, R> c;
    MV add(U b, R x) const { MV r(*this); r.c[b] += x; return r; }
};

struct Space { int n, p, q; R sq(int i) const { return i < p ? 1 : i < p + q ? -1 : 0; } U all() const { return n == 64 ? ~U(0) : (U(1) << n) - 1; } };

inline int grade(U b) { int k = 0; for (; b; b >>= 1) k += int(b & 1); return k; }

// Moves every basis vector of b, one by one, into its place among those of a.
inline U product(Space const &s, U a, U b, R &x) {
    for (int i = 0; i < 64; ++i) if (b >> i & 1) {
        for (int j = i + 1; j < 64; ++j) if (a >> j & 1) x = -x;
        if (a >> i & 1) x *= s.sq(i);
        a ^= U(1) << i;
    }
    return a;
}

template<typename Keep>
MV combine(Space const &s, MV const &a, MV const &b, Keep keep) {
    MV r;
    for (auto const &l : a.c) for (auto const &k : b.c) {
        R x = l.second * k.second;
        U const m = product(s, l.first, k.first, x);
        if (keep(grade(l.first), grade(k.first), grade(m))) r.c[m] += x;
    }
    return r;
}
inline MV gp(Space const &s, MV const &a, MV const &b) { return combine(s, a, b, [](int, int, int) { return true; }); }
inline MV op(Space const &s, MV const &a, MV const &b) { return combine(s, a, b, [](int i, int j, int k) { return k == i + j; }); }
inline MV lcont(Space const &s, MV const &a, MV const &b) { return combine(s, a, b, [](int i, int j, int k) { return k == j - i; }); }
inline MV rcont(Space const &s, MV const &a, MV const &b) { return combine(s, a, b, [](int i, int j, int k) { return k == i - j; }); }
inline MV dot(Space const &s, MV const &a, MV const &b) { return combine(s, a, b, [](int i, int j, int k) { return k == (i > j ? i - j : j - i); }); }
inline MV hip(Space const &s, MV const &a, MV const &b) { return combine(s, a, b, [](int i, int j, int k) { return i && j && k == (i > j ? i - j : j - i); }); }
inline MV sp(Space const &s, MV const &a, MV const &b) { return combine(s, a, b, [](int, int, int k) { return k == 0; }); }
inline MV rp(Space const &s, MV const &a, MV const &b) {
    Space const e{s.n, s.n, 0};
    U const I = s.all();
    MV x, y, r;
    for (auto const &l : a.c) { R v = l.second; product(e, l.first, I ^ l.first, v); x.c[I ^ l.first] += v; }
    for (auto const &l : b.c) { R v = l.second; product(e, l.first, I ^ l.first, v); y.c[I ^ l.first] += v; }
    for (auto const &l : op(e, x, y).c) { R v = l.second; product(e, I ^ l.first, l.first, v); r.c[I ^ l.first] += v; }
    return r;
}
inline MV graded(MV const &a, int s0, int s1, int s2, int s3) { int const s[] = {s0, s1, s2, s3}; MV r; for (auto const &l : a.c) r.c[l.first] = s[grade(l.first) & 3] * l.second; return r; }
inline MV reverse(MV const &a) { return graded(a, 1, 1, -1, -1); }
inline MV involute(MV const &a) { return graded(a, 1, -1, 1, -1); }
inline MV conjugate(MV const &a) { return graded(a, 1, -1, -1, 1); }
inline MV take(MV const &a, int k) { MV r; for (auto const &l : a.c) if (grade(l.first) == k) r.c[l.first] = l.second; return r; }
inline MV plus(MV const &a, MV const &b) { MV r(a); for (auto const &l : b.c) r.c[l.first] += l.second; return r; }

inline std::string show(MV const &a) {
    std::ostringstream o;
    for (auto const &l : a.c) if (l.second != 0) { o << (double)l.second << "<"; for (int i = 0; i < 64; ++i) if (l.first >> i & 1) o << " e" << i + 1; o << " > "; }
    return o.str().empty() ? "0" : o.str();
}

// A GATL value.
template<typename T>
MV value(T const &x) {
    MV r;
    ga::for_each_component(x, [&](auto b, auto v, auto, auto, bool &) { if (v != decltype(v)(0)) r.c[U(b)] += (R)v; });
    return r;
}

inline void eq(vt::Ctx &cx, MV const &got, MV const &want, char const *label) {
    R top = 0, worst = 0;
    for (auto const &l : want.c) top = std::max(top, std::fabs(l.second));
    MV d(got);
    for (auto const &l : want.c) d.c[l.first] -= l.second;
    for (auto const &l : d.c) worst = std::max(worst, std::isnan(l.second) ? R(1e300) : std::fabs(l.second));
    if (top != 0) cx.nontrivial();
    cx.require(worst <= VT_REL * (1 + top), label, worst <= VT_REL * (1 + top) ? "" : "got " + show(got) + ", expected " + show(want));
}

}

#endif
