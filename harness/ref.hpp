// Independent reference model: dense multivectors over an arbitrary symmetric metric.
// Nothing here uses GATL.  Basis blade e_{i1}^...^e_{ik} (i1<...<ik) is the bitmask with bits i-1 set.
#ifndef VT_REF_HPP
#define VT_REF_HPP
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace ref {

typedef long double R;

struct MV {
    int n;                 // number of dimensions
    std::vector<R> c;      // 2^n coefficients
    explicit MV(int n_ = 0) : n(n_), c(std::size_t(1) << n_, R(0)) {}
    MV &add(unsigned b, R v) { c[b] += v; return *this; }
    R operator[](unsigned b) const { return c[b]; }
    R &operator[](unsigned b) { return c[b]; }
    R maxabs() const;
};

MV scalar(int n, R v);
MV blade(int n, unsigned b, R v);
MV vec(int n, std::vector<R> const &v);

struct Metric {
    int n;
    std::vector<R> g;      // n x n
    Metric(int n_, std::vector<R> const &g_) : n(n_), g(g_) {}
    R at(int i, int j) const { return g[std::size_t(i) * n + j]; }
    // geometric product of two basis blades, as a dense multivector (memoised)
    MV const &table(unsigned a, unsigned b) const;
private:
    mutable std::vector<MV> memo;
    mutable std::vector<char> have;
};

Metric sig(int p, int q, int r);
Metric conformal(int d);
Metric general(int n, std::vector<R> const &g);

int gradeof(unsigned b);

MV operator+(MV const &, MV const &);
MV operator-(MV const &, MV const &);
MV operator-(MV const &);
MV operator*(R, MV const &);

MV gp(Metric const &, MV const &, MV const &);
MV op(MV const &, MV const &);
MV rp(MV const &, MV const &);
MV lcont(Metric const &, MV const &, MV const &);
MV rcont(Metric const &, MV const &, MV const &);
MV dot(Metric const &, MV const &, MV const &);
MV hip(Metric const &, MV const &, MV const &);
MV sp(Metric const &, MV const &, MV const &);
MV cp(Metric const &, MV const &, MV const &);
MV reverse(MV const &);
MV involute(MV const &);
MV conjugate(MV const &);
MV take(MV const &, int grade);
R rnorm_sqr(Metric const &, MV const &);
MV inv(Metric const &, MV const &);          // ~x / <x ~x>
MV dual(Metric const &, MV const &, MV const &);
MV undual(Metric const &, MV const &, MV const &);
MV pseudo(int n);
std::string show(MV const &);
bool close(MV const &got, MV const &want, R rel, R scale);
bool finite(MV const &);
int topgrade(MV const &, R tol); // largest grade with a component above the tolerance, or -1
MV dp(Metric const &, MV const &, MV const &);
MV igp(Metric const &, MV const &, MV const &);
R n1(MV const &);           // sum of absolute values
int gradeflag(MV const &, R tol);            // the grade, -1 for several grades, -2 for none
MV exp(Metric const &, MV const &);          // the exponential series
MV even(Metric const &, MV const &v, MV const &x);   // v x v^-1
MV odd(Metric const &, MV const &v, MV const &x);    // v x^ v^-1
MV rotor(Metric const &, MV const &r, MV const &x);  // r x ~r
bool proportional(MV const &a, MV const &b, R tol);  // the same non-zero multivector up to scale
MV wedge_all(int n, std::vector<std::vector<R>> const &a);
MV span_union(int n, std::vector<std::vector<R>> const &a, std::vector<std::vector<R>> const &b);  // a blade of the sum of two spans
MV span_meet(int n, std::vector<std::vector<R>> const &a, std::vector<std::vector<R>> const &b);   // a blade of their intersection

}
#endif
