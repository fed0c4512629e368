// Geometry of the models of the base space, on top of the reference multivectors.  Nothing here uses GATL.
#ifndef VT_GEO_HPP
#define VT_GEO_HPP
#include "ref.hpp"
#include <cmath>

namespace geo {

using ref::MV;
using ref::R;
typedef std::vector<R> Vec;
typedef std::vector<Vec> Vecs;

// Whether a versor's squared norm is safely away from zero: computing it and dividing by it loses few digits.
inline bool tame(ref::Metric const &m, MV const &v) {
    R const q = std::fabs(ref::rnorm_sqr(m, v)), s = ref::n1(v);
    return q >= 0.01L && q >= 1e-5L * s * s;
}

inline R dotp(Vec const &a, Vec const &b) { R s = 0; for (std::size_t i = 0; i < a.size() && i < b.size(); ++i) s += a[i] * b[i]; return s; }

// Orthonormal basis of the span of some vectors.
inline Vecs orthonormal(Vecs const &a) {
    Vecs q;
    for (Vec v : a) {
        R const before = std::sqrt(dotp(v, v));
        for (int pass = 0; pass < 2; ++pass) for (auto const &u : q) { R const d = dotp(u, v); for (std::size_t i = 0; i < v.size(); ++i) v[i] -= d * u[i]; }
        R const l = std::sqrt(dotp(v, v));
        if (l <= 1e-9L * before || before == 0) continue;
        for (auto &x : v) x /= l;
        q.push_back(v);
    }
    return q;
}
inline Vec projected(Vec const &v, Vecs const &onto) {
    Vec r(v.size(), 0);
    for (auto const &u : orthonormal(onto)) { R const d = dotp(u, v); for (std::size_t i = 0; i < v.size(); ++i) r[i] += d * u[i]; }
    return r;
}
inline Vec minus(Vec a, Vec const &b) { for (std::size_t i = 0; i < a.size(); ++i) a[i] -= b[i]; return a; }
inline Vec plus(Vec a, Vec const &b) { for (std::size_t i = 0; i < a.size(); ++i) a[i] += b[i]; return a; }

// The image of a multivector under the outermorphism of the orthogonal projection onto a span.
inline MV project(MV const &x, Vecs const &onto) {
    std::vector<MV> image;
    for (int i = 0; i < x.n; ++i) { Vec e(x.n, 0); e[i] = 1; image.push_back(ref::vec(x.n, projected(e, onto))); }
    MV r(x.n);
    for (unsigned b = 0; b < x.c.size(); ++b) if (x.c[b] != 0) {
        MV m = ref::scalar(x.n, x.c[b]);
        for (int i = 0; i < x.n; ++i) if (b >> i & 1) m = ref::op(m, image[i]);
        r = r + m;
    }
    return r;
}

// Homogeneous model: d dimensions and one more for the point at the origin.
struct Homogeneous {
    int d, n;
    explicit Homogeneous(int d_) : d(d_), n(d_ + 1) {}
    MV vec(Vec const &v) const { MV r(n); for (int i = 0; i < d; ++i) r.add(1u << i, v[i]); return r; }
    MV point(Vec const &v) const { return vec(v).add(1u << d, 1); }
    MV direction(Vecs const &a) const { MV r = ref::scalar(n, 1); for (auto const &v : a) r = ref::op(r, vec(v)); return r; }
};

// Conformal model, with the null vectors as basis vectors (no, ni) or with an orthonormal basis (ep, em).
struct Conformal {
    ref::Metric M;
    int d, n;
    MV no, ni;
    Conformal(bool nulls, int d_) : M(nulls ? ref::conformal(d_) : ref::sig(d_ + 1, 1, 0)), d(d_), n(d_ + 2), no(n), ni(n) {
        unsigned const a = 1u << d, b = 2u << d;
        if (nulls) { no.add(a, 1); ni.add(b, 1); }
        else { no.add(a, -.5L).add(b, .5L); ni.add(a, 1).add(b, 1); }
    }
    MV vec(Vec const &v) const { MV r(n); for (int i = 0; i < d; ++i) r.add(1u << i, v[i]); return r; }
    MV point(Vec const &v) const { return vec(v) + no + (dotp(v, v) / 2) * ni; }
    MV direction(Vecs const &a) const { MV r = ref::scalar(n, 1); for (auto const &v : a) r = ref::op(r, vec(v)); return r; }
    // The direction moved to a point.
    MV moved(Vec const &c, Vecs const &a) const { MV r = ref::scalar(n, 1); for (auto const &v : a) r = ref::op(r, vec(v) + dotp(c, v) * ni); return r; }
    MV round(Vec const &c, Vecs const &a, R size_sqr) const { return ref::op(point(c) + (size_sqr / 2) * ni, moved(c, a)); }
    MV tangent(Vec const &c, Vecs const &a) const { return ref::op(point(c), moved(c, a)); }
    MV flat(Vec const &c, Vecs const &a) const { return ref::op(tangent(c, a), ni); }
    MV dual(MV const &x) const { return ref::dual(M, x, ref::pseudo(n)); }
};

}
#endif
