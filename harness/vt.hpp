// Test context: a program under test draws its inputs from a recorded choice sequence (so that a failing case can be
// shrunk and replayed) and compares what GATL computed with the reference model.
#ifndef VT_HPP
#define VT_HPP
#include "ref.hpp"
#include <string>
#include <vector>

#ifndef VT_REL
#define VT_REL 1e-9
#endif

namespace vt {

struct Fail { std::string what; };
struct Discard {};

class Ctx {
public:
    typedef long Choice;

    // Uniform integer in [lo, hi]; lo is the simplest.
    long draw(long lo, long hi);
    bool flip() { return draw(0, 1) != 0; }
    // Small number that double (and float) represents exactly: mostly small integers, sometimes quarters, sometimes larger.
    double num();
    double numnz();           // the same, never zero
    double integer();         // integers only
    double integernz();
    double pos();             // strictly positive
    double real(double lo, double hi); // dense reals
    double spnum() { return flip() ? num() : 0.0; }          // half of them zero
    double trit() { return double(draw(0, 2)) - (at_most_one() ? 1.0 : 0.0); } // 0, 1 or -1, rarely 2
    double small() { return double(draw(0, 6)) - 3.0; }      // -3..3
    double half() { return double(draw(0, 16)) / 2 - 4.0; } // halves in -4..4
    double rad() { return flip() ? double(draw(-12, 12)) / 4 : real(-3, 3); }
    std::vector<double> nums(int n) { std::vector<double> r; for (int i = 0; i < n; ++i) r.push_back(num()); return r; }

    // Comparison of a computed multivector with the model's.
    void eq(ref::MV const &got, ref::MV const &want, char const *label, double rel = VT_REL, double scale = 0);
    void eqs(long double got, long double want, char const *label, double rel = VT_REL, double scale = 0);
    void require(bool ok, char const *label, std::string const &detail = "");
    void within(long double got, long double want, long double tol, char const *label);
    void eqstr(std::string const &got, std::string const &want, char const *label);
    [[noreturn]] void discard() { throw Discard(); }
    void assume(bool b) { if (!b) throw Discard(); }
    // Marks the case as one that exercises what the property is about; by default a case counts when some compared
    // model value was not zero.
    void nontrivial() { nt = true; }
    void input(char const *name, ref::MV const &v) { if (verbose || collect) text += std::string(name) + " = " + ref::show(v) + "; "; }
    void input(char const *name, double v);

    // Driver's side.
    bool replay = false, verbose = false, collect = false, nt = false;
    std::vector<Choice> choices;
    std::size_t at = 0;
    std::uint64_t rng = 0;
    std::string text;
    long evaluations = 0;

private:
    bool at_most_one() { return draw(0, 7) != 7; }
    Choice choose(Choice n, Choice (*gen)(Ctx &, Choice));
    std::uint64_t next();
    friend struct CtxGen;
};

// A real number of the model together with a bound on the error that double precision may make in computing it.  An
// operation outside its domain, or too close to its edge, discards the case.
struct V { long double v, e; bool exact = false; }; // exact: double precision computes it without any rounding
V vconst(long double v);
V vinput(double v);
V vneg(V a);
V vadd(V a, V b);
V vsub(V a, V b);
V vmul(V a, V b);
V vdiv(V a, V b);
V vpowi(V a, long k);
V vpow(V a, V b);
V vsqrt(V a);
V vcbrt(V a);
V vcbrtp(V a); // of a positive number only
V vabs(V a);
V vexp(V a);
V vlog(V a);
V vcos(V a);
V vsin(V a);
V vtan(V a);
V vcosh(V a);
V vsinh(V a);
V vtanh(V a);

typedef void (*ProgFn)(Ctx &);
struct Reg { Reg(char const *name, char const *text, ProgFn fn); };

}

#define VT_PROG(NAME, TEXT) \
    static void NAME(vt::Ctx &cx); \
    static vt::Reg reg_##NAME(#NAME, TEXT, NAME); \
    static void NAME([[maybe_unused]] vt::Ctx &cx)

#endif
