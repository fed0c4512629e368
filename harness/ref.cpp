#include "ref.hpp"
#include <algorithm>
#include <cmath>
#include <sstream>

namespace ref {

int gradeof(unsigned b) { int k = 0; for (; b; b &= b - 1) ++k; return k; }

R MV::maxabs() const { R m = 0; for (R v : c) m = std::max(m, std::fabs(v)); return m; }

MV scalar(int n, R v) { MV r(n); r.c[0] = v; return r; }
MV blade(int n, unsigned b, R v) { MV r(n); r.c[b] = v; return r; }
MV vec(int n, std::vector<R> const &v) { MV r(n); for (std::size_t i = 0; i < v.size(); ++i) r.c[1u << i] = v[i]; return r; }
MV pseudo(int n) { return blade(n, (1u << n) - 1, 1); }

static MV zip(MV const &a, MV const &b, R s) { MV r(a); for (std::size_t i = 0; i < r.c.size(); ++i) r.c[i] += s * b.c[i]; return r; }
MV operator+(MV const &a, MV const &b) { return zip(a, b, 1); }
MV operator-(MV const &a, MV const &b) { return zip(a, b, -1); }
MV operator-(MV const &a) { MV r(a); for (R &v : r.c) v = -v; return r; }
MV operator*(R s, MV const &a) { MV r(a); for (R &v : r.c) v *= s; return r; }

// Sign of sorting the concatenation of the two index lists (bubble sort, counted literally); 0 if an index repeats.
static int wedge_sign(unsigned a, unsigned b) {
    std::vector<int> l;
    for (int i = 0; i < 32; ++i) if (a >> i & 1) l.push_back(i);
    for (int i = 0; i < 32; ++i) if (b >> i & 1) l.push_back(i);
    int s = 1;
    for (std::size_t i = 0; i < l.size(); ++i)
        for (std::size_t j = 0; j + 1 < l.size(); ++j) {
            if (l[j] == l[j + 1]) return 0;
            if (l[j] > l[j + 1]) { std::swap(l[j], l[j + 1]); s = -s; }
        }
    for (std::size_t j = 0; j + 1 < l.size(); ++j) if (l[j] == l[j + 1]) return 0;
    return s;
}

// e_i contracted onto the basis blade b (left contraction of a vector), by the derivation rule.
static MV vcontract(Metric const &m, int i, unsigned b) {
    MV r(m.n);
    int s = 1;
    for (int j = 0; j < m.n; ++j) if (b >> j & 1) {
        r.c[b ^ (1u << j)] += s * m.at(i, j);
        s = -s;
    }
    return r;
}

// e_i X = e_i ^ X + e_i _| X
static MV vgp(Metric const &m, int i, MV const &x) {
    MV r(m.n);
    for (unsigned b = 0; b < x.c.size(); ++b) if (x.c[b] != 0) {
        int s = wedge_sign(1u << i, b);
        if (s) r.c[b | (1u << i)] += s * x.c[b];
        r = r + x.c[b] * vcontract(m, i, b);
    }
    return r;
}

// A = e_i ^ A' with i the lowest index of A:  A B = e_i (A' B) - (e_i _| A') B
MV const &Metric::table(unsigned a, unsigned b) const {
    std::size_t const N = std::size_t(1) << n, k = a * N + b;
    if (memo.empty()) { memo.assign(N * N, MV()); have.assign(N * N, 0); }
    if (have[k]) return memo[k];
    MV r(n);
    if (a == 0) {
        r.c[b] = 1;
    } else {
        int i = 0;
        while (!(a >> i & 1)) ++i;
        unsigned const a2 = a ^ (1u << i);
        r = vgp(*this, i, table(a2, b));
        MV const ca = vcontract(*this, i, a2);
        for (unsigned x = 0; x < N; ++x) if (ca.c[x] != 0) r = r - ca.c[x] * table(x, b);
    }
    memo[k] = r;
    have[k] = 1;
    return memo[k];
}

Metric sig(int p, int q, int r) {
    int const n = p + q + r;
    std::vector<R> g(std::size_t(n) * n, R(0));
    for (int i = 0; i < n; ++i) g[std::size_t(i) * n + i] = i < p ? 1 : i < p + q ? -1 : 0;
    return Metric(n, g);
}
Metric conformal(int d) {
    int const n = d + 2;
    std::vector<R> g(std::size_t(n) * n, R(0));
    for (int i = 0; i < d; ++i) g[std::size_t(i) * n + i] = 1;
    g[std::size_t(d) * n + d + 1] = g[std::size_t(d + 1) * n + d] = -1;
    return Metric(n, g);
}
Metric general(int n, std::vector<R> const &g) { return Metric(n, g); }

template<class F> static MV product(Metric const &m, MV const &a, MV const &b, F keep) {
    MV r(m.n);
    for (unsigned i = 0; i < a.c.size(); ++i) if (a.c[i] != 0)
        for (unsigned j = 0; j < b.c.size(); ++j) if (b.c[j] != 0) {
            MV const &t = m.table(i, j);
            R const s = a.c[i] * b.c[j];
            for (unsigned k = 0; k < t.c.size(); ++k) if (t.c[k] != 0 && keep(gradeof(i), gradeof(j), gradeof(k))) r.c[k] += s * t.c[k];
        }
    return r;
}

MV gp(Metric const &m, MV const &a, MV const &b) { return product(m, a, b, [](int, int, int) { return true; }); }
MV lcont(Metric const &m, MV const &a, MV const &b) { return product(m, a, b, [](int r, int s, int t) { return t == s - r; }); }
MV rcont(Metric const &m, MV const &a, MV const &b) { return product(m, a, b, [](int r, int s, int t) { return t == r - s; }); }
MV dot(Metric const &m, MV const &a, MV const &b) { return product(m, a, b, [](int r, int s, int t) { return t == std::abs(r - s); }); }
MV hip(Metric const &m, MV const &a, MV const &b) { return product(m, a, b, [](int r, int s, int t) { return r && s && t == std::abs(r - s); }); }
MV sp(Metric const &m, MV const &a, MV const &b) { return product(m, a, b, [](int, int, int t) { return t == 0; }); }
MV cp(Metric const &m, MV const &a, MV const &b) { return R(0.5) * (gp(m, a, b) - gp(m, b, a)); }

MV op(MV const &a, MV const &b) {
    MV r(a.n);
    for (unsigned i = 0; i < a.c.size(); ++i) if (a.c[i] != 0)
        for (unsigned j = 0; j < b.c.size(); ++j) if (b.c[j] != 0) {
            int const s = wedge_sign(i, j);
            if (s) r.c[i | j] += s * a.c[i] * b.c[j];
        }
    return r;
}

// Regressive product.  With the right complement R(x) of a basis blade x (x ^ R(x) = I), extended linearly,
// A v B = R^-1(R(A) ^ R(B)).
MV rp(MV const &a, MV const &b) {
    unsigned const I = unsigned(a.c.size() - 1);
    auto rc = [&](MV const &x) { MV r(x.n); for (unsigned i = 0; i <= I; ++i) if (x.c[i] != 0) r.c[I ^ i] += wedge_sign(i, I ^ i) * x.c[i]; return r; };
    auto rci = [&](MV const &x) { MV r(x.n); for (unsigned i = 0; i <= I; ++i) if (x.c[i] != 0) r.c[I ^ i] += wedge_sign(I ^ i, i) * x.c[i]; return r; };
    return rci(op(rc(a), rc(b)));
}

static MV graded(MV const &a, int const (&s)[4]) { MV r(a); for (unsigned i = 0; i < r.c.size(); ++i) r.c[i] *= s[gradeof(i) & 3]; return r; }
MV reverse(MV const &a) { return graded(a, {1, 1, -1, -1}); }
MV involute(MV const &a) { return graded(a, {1, -1, 1, -1}); }
MV conjugate(MV const &a) { return graded(a, {1, -1, -1, 1}); }
MV take(MV const &a, int k) { MV r(a); for (unsigned i = 0; i < r.c.size(); ++i) if (gradeof(i) != k) r.c[i] = 0; return r; }
R rnorm_sqr(Metric const &m, MV const &a) { return sp(m, a, reverse(a)).c[0]; }
MV inv(Metric const &m, MV const &a) { return (R(1) / rnorm_sqr(m, a)) * reverse(a); }
MV dual(Metric const &m, MV const &a, MV const &i) { return lcont(m, a, inv(m, i)); }
MV undual(Metric const &m, MV const &a, MV const &i) { return lcont(m, a, i); }

std::string show(MV const &a) {
    std::ostringstream o;
    o.precision(12);
    bool any = false;
    for (unsigned i = 0; i < a.c.size(); ++i) if (a.c[i] != 0) {
        if (any) o << " + ";
        any = true;
        o << (double)a.c[i];
        for (int j = 0, f = 1; j < a.n; ++j) if (i >> j & 1) { o << (f ? "*e" : "^e") << j + 1; f = 0; }
    }
    if (!any) o << "0";
    return o.str();
}

bool finite(MV const &a) { for (R v : a.c) if (!std::isfinite(v)) return false; return true; }

bool close(MV const &got, MV const &want, R rel, R scale) {
    if (got.c.size() != want.c.size()) return false;
    R const tol = rel * (1 + std::max(scale, want.maxabs()));
    for (std::size_t i = 0; i < got.c.size(); ++i) if (!(std::fabs(got.c[i] - want.c[i]) <= tol)) return false;
    return true;
}

int topgrade(MV const &a, R tol) { int g = -1; for (unsigned i = 0; i < a.c.size(); ++i) if (std::fabs(a.c[i]) > tol) g = std::max(g, gradeof(i)); return g; }
MV dp(Metric const &m, MV const &a, MV const &b) { MV const p = gp(m, a, b); int const g = topgrade(p, 1e-8L); return g < 0 ? MV(a.n) : take(p, g); }
MV igp(Metric const &m, MV const &a, MV const &b) { return gp(m, a, inv(m, b)); }

R n1(MV const &a) { R s = 0; for (R v : a.c) s += std::fabs(v); return s; }

int gradeflag(MV const &a, R tol) {
    int g = -2;
    for (unsigned i = 0; i < a.c.size(); ++i) if (std::fabs(a.c[i]) > tol) { int const k = gradeof(i); g = g == -2 || g == k ? k : -1; }
    return g;
}

MV exp(Metric const &m, MV const &a) {
    int k = 0;
    R s = n1(a);
    while (s > R(0.25)) { s /= 2; ++k; }
    MV const x = std::pow(R(0.5), R(k)) * a;
    MV r = scalar(a.n, 1), t = r;
    for (int i = 1; i < 28; ++i) { t = (R(1) / i) * gp(m, t, x); r = r + t; }
    while (k--) r = gp(m, r, r);
    return r;
}

MV even(Metric const &m, MV const &v, MV const &x) { return gp(m, gp(m, v, x), inv(m, v)); }
MV odd(Metric const &m, MV const &v, MV const &x) { return gp(m, gp(m, v, involute(x)), inv(m, v)); }
MV rotor(Metric const &m, MV const &r, MV const &x) { return gp(m, gp(m, r, x), reverse(r)); }

bool proportional(MV const &a, MV const &b, R tol) {
    R const x = a.maxabs(), y = b.maxabs();
    if (!(x > 0) || !(y > 0) || !std::isfinite(x) || !std::isfinite(y)) return false;
    std::size_t k = 0;
    for (std::size_t i = 0; i < b.c.size(); ++i) if (std::fabs(b.c[i]) > std::fabs(b.c[k])) k = i;
    R const f = a.c[k] / b.c[k];
    if (std::fabs(f) < 1e-9L * x / y) return false;
    for (std::size_t i = 0; i < a.c.size(); ++i) if (std::fabs(a.c[i] - f * b.c[i]) > tol * x) return false;
    return true;
}

typedef std::vector<std::vector<R>> Rows;

// Row echelon form, dropping dependent rows.
static Rows echelon(Rows m) {
    Rows out;
    if (m.empty()) return out;
    std::size_t const n = m[0].size();
    std::size_t r = 0;
    for (std::size_t c = 0; c < n && r < m.size(); ++c) {
        std::size_t p = r;
        for (std::size_t i = r; i < m.size(); ++i) if (std::fabs(m[i][c]) > std::fabs(m[p][c])) p = i;
        if (std::fabs(m[p][c]) < 1e-12L) continue;
        std::swap(m[p], m[r]);
        R const d = m[r][c];
        for (R &v : m[r]) v /= d;
        for (std::size_t i = 0; i < m.size(); ++i) if (i != r) {
            R const f = m[i][c];
            for (std::size_t j = 0; j < n; ++j) { m[i][j] -= f * m[r][j]; if (std::fabs(m[i][j]) < 1e-13L) m[i][j] = 0; }
        }
        ++r;
    }
    m.resize(r);
    return m;
}

MV wedge_all(int n, Rows const &a) {
    MV r = scalar(n, 1);
    for (auto const &v : a) r = op(r, vec(n, v));
    return r;
}

MV span_union(int n, Rows const &a, Rows const &b) {
    Rows m = a;
    m.insert(m.end(), b.begin(), b.end());
    return wedge_all(n, echelon(m));
}

// Zassenhaus' algorithm: the rows [x x] for x in a and [y 0] for y in b; after elimination the rows [0 z] span the
// intersection.
MV span_meet(int n, Rows const &a, Rows const &b) {
    Rows m;
    for (auto const &x : a) { std::vector<R> r(x); r.insert(r.end(), x.begin(), x.end()); m.push_back(r); }
    for (auto const &y : b) { std::vector<R> r(y); r.resize(2 * std::size_t(n), 0); m.push_back(r); }
    Rows z;
    for (auto const &r : echelon(m)) {
        bool zero = true;
        for (int i = 0; i < n; ++i) if (std::fabs(r[i]) > 1e-11L) zero = false;
        if (zero) z.push_back(std::vector<R>(r.begin() + n, r.end()));
    }
    return wedge_all(n, z);
}

}
