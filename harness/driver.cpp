#include "vt.hpp"
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <set>
#include <sstream>
#include <unistd.h>

namespace vt {

struct Prog { char const *name, *text; ProgFn fn; };
static std::vector<Prog> &progs() { static std::vector<Prog> p; return p; }
Reg::Reg(char const *name, char const *text, ProgFn fn) { progs().push_back({name, text, fn}); }

std::uint64_t Ctx::next() {
    std::uint64_t z = (rng += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

struct CtxGen {
    static Ctx::Choice uniform(Ctx &c, Ctx::Choice n) { return Ctx::Choice(c.next() % std::uint64_t(n)); }
    // Skewed to the small end.
    static Ctx::Choice skewed(Ctx &c, Ctx::Choice n) {
        unsigned const k = unsigned(c.next() % 16);
        Ctx::Choice const lim = k < 11 ? 11 : k < 14 ? 200 : n;
        return uniform(c, std::min(n, lim));
    }
};

Ctx::Choice Ctx::choose(Choice n, Choice (*gen)(Ctx &, Choice)) {
    Choice v;
    if (replay) {
        v = at < choices.size() ? choices[at] : 0;
        if (v < 0) v = 0;
        v %= n;
        if (at < choices.size()) choices[at] = v;
    } else {
        v = gen(*this, n);
        choices.push_back(v);
    }
    ++at;
    return v;
}

long Ctx::draw(long lo, long hi) { return lo + choose(hi - lo + 1, &CtxGen::uniform); }

// 0, 1, -1, 2, -2, ... 5, -5, then quarters up to 25, then integers up to 500.
static double num_of(long k) {
    auto sgn = [](long j) { return j & 1 ? double((j + 1) / 2) : -double(j / 2); };
    if (k < 11) return sgn(k);
    k -= 10;
    if (k < 200) return sgn(k) / 4;
    k -= 199;
    return sgn(k);
}
static long const NUM = 1200;
double Ctx::num() { return num_of(choose(NUM, &CtxGen::skewed)); }
double Ctx::numnz() { return num_of(1 + choose(NUM - 1, &CtxGen::skewed)); }
double Ctx::integer() { long const k = choose(600, &CtxGen::skewed); return k & 1 ? double((k + 1) / 2) : -double(k / 2); }
double Ctx::integernz() { long const k = 1 + choose(600, &CtxGen::skewed); return k & 1 ? double((k + 1) / 2) : -double(k / 2); }
double Ctx::pos() { return std::fabs(num_of(1 + choose(NUM - 1, &CtxGen::skewed))); }
double Ctx::real(double lo, double hi) { return lo + (hi - lo) * double(choose(1 << 20, &CtxGen::uniform)) / double((1 << 20) - 1); }

void Ctx::input(char const *name, double v) {
    if (!verbose && !collect) return;
    std::ostringstream o;
    o.precision(17);
    o << name << " = " << v << "; ";
    text += o.str();
}

void Ctx::eq(ref::MV const &got, ref::MV const &want, char const *label, double rel, double scale) {
    ++evaluations;
    if (want.maxabs() != 0) nt = true;
    if (verbose) text += std::string(label) + ": got " + ref::show(got) + ", expected " + ref::show(want) + "; ";
    if (!ref::close(got, want, rel, scale)) throw Fail{std::string(label) + ": got " + ref::show(got) + ", expected " + ref::show(want)};
}
void Ctx::eqs(long double got, long double want, char const *label, double rel, double scale) {
    ++evaluations;
    if (want != 0) nt = true;
    long double const tol = rel * (1 + std::max((long double)scale, std::fabs(want)));
    if (!(std::fabs(got - want) <= tol)) {
        std::ostringstream o;
        o.precision(17);
        o << label << ": got " << (double)got << ", expected " << (double)want;
        throw Fail{o.str()};
    }
}
void Ctx::require(bool ok, char const *label, std::string const &detail) {
    ++evaluations;
    if (!ok) throw Fail{std::string(label) + (detail.empty() ? "" : ": ") + detail};
}
void Ctx::within(long double got, long double want, long double tol, char const *label) {
    ++evaluations;
    if (want != 0) nt = true;
    if (verbose) { std::ostringstream o; o.precision(17); o << label << ": got " << (double)got << ", expected " << (double)want << "; "; text += o.str(); }
    if (!(std::fabs(got - want) <= tol)) {
        std::ostringstream o;
        o.precision(17);
        o << label << ": got " << (double)got << ", expected " << (double)want << " within " << (double)tol;
        throw Fail{o.str()};
    }
}

static V vmade(long double v, long double e) {
    if (!std::isfinite(v) || std::fabs(v) > 1e5L) throw Discard();
    e += 4e-16L * std::fabs(v);
    if (!(e < 1e-6L)) throw Discard();
    return {v, e};
}
static bool dyadic(long double v) { return std::fabs(v) < 1e6L && v * 1024 == std::round(v * 1024); }
static V kept(V r, bool exact) { r.exact = exact && dyadic(r.v); return r; }
V vconst(long double v) { return kept({v, 4e-16L * std::fabs(v)}, true); }
V vinput(double v) { return kept({(long double)v, 0}, true); }
V vneg(V a) { return {-a.v, a.e, a.exact}; }
V vadd(V a, V b) { return kept(vmade(a.v + b.v, a.e + b.e + 2e-16L * (std::fabs(a.v) + std::fabs(b.v))), a.exact && b.exact); }
V vsub(V a, V b) { return vadd(a, vneg(b)); }
V vmul(V a, V b) { return kept(vmade(a.v * b.v, std::fabs(a.v) * b.e + std::fabs(b.v) * a.e + a.e * b.e), a.exact && b.exact); }
V vdiv(V a, V b) {
    if (std::fabs(b.v) < 0.05L) throw Discard();
    return vmade(a.v / b.v, (a.e + std::fabs(a.v / b.v) * b.e) / (std::fabs(b.v) - b.e));
}
V vpowi(V a, long k) {
    V r{1, 0};
    for (long i = 0; i < std::labs(k); ++i) r = vmul(r, a);
    return k < 0 ? vdiv({1, 0}, r) : r;
}
V vpow(V a, V b) {
    // A negative base: only exponents that are integers, and stay so in double precision.
    if (a.v < -0.05L && b.exact && b.v == std::round(b.v) && std::fabs(b.v) <= 12) return vpowi(a, std::lround(b.v));
    if (a.v < 0.05L) throw Discard();
    long double const r = std::pow(a.v, b.v);
    return vmade(r, std::fabs(r) * (std::fabs(std::log(a.v)) * b.e + std::fabs(b.v) * a.e / a.v) * 2);
}
V vsqrt(V a) {
    if (a.v < 0 && a.v > -a.e) throw Discard();
    if (a.v < 0) throw Discard();
    if (a.v == 0) return {0, std::sqrt(a.e)};
    if (a.v < 1e-4L) throw Discard();
    return vmade(std::sqrt(a.v), a.e / std::sqrt(a.v));
}
V vcbrt(V a) {
    if (a.v == 0 && a.e == 0) return {0, 0};
    if (std::fabs(a.v) < 1e-4L) throw Discard();
    return vmade(std::cbrt(a.v), a.e / std::cbrt(a.v * a.v));
}
V vcbrtp(V a) { if (a.v <= 0) throw Discard(); return vcbrt(a); }
V vabs(V a) { return {std::fabs(a.v), a.e, a.exact}; }
V vexp(V a) { if (a.v > 11 || a.v < -11) throw Discard(); return vmade(std::exp(a.v), std::exp(a.v) * a.e * 2); }
V vlog(V a) { if (a.v < 0.05L) throw Discard(); return vmade(std::log(a.v), 2 * a.e / a.v); }
V vcos(V a) { return vmade(std::cos(a.v), a.e); }
V vsin(V a) { return vmade(std::sin(a.v), a.e); }
V vtan(V a) { if (std::fabs(std::cos(a.v)) < 0.1L) throw Discard(); return vmade(std::tan(a.v), a.e * 200); }
V vcosh(V a) { if (std::fabs(a.v) > 11) throw Discard(); return vmade(std::cosh(a.v), 2 * a.e * std::cosh(a.v)); }
V vsinh(V a) { if (std::fabs(a.v) > 11) throw Discard(); return vmade(std::sinh(a.v), 2 * a.e * std::cosh(a.v)); }
V vtanh(V a) { return vmade(std::tanh(a.v), a.e); }

void Ctx::eqstr(std::string const &got, std::string const &want, char const *label) {
    ++evaluations;
    nt = true;
    if (got != want) throw Fail{std::string(label) + ": got \"" + got + "\", expected \"" + want + "\""};
}

enum Out { PASS, FAIL, DISCARD };

static Ctx const *current = nullptr;
static char const *current_name = "";

static void on_signal(int s) {
    char buf[8192];
    int k = std::snprintf(buf, sizeof buf, "\nCRASH\t%s\tsignal %d\t", current_name, s);
    if (current) for (long v : current->choices) { if (k > int(sizeof buf) - 32) break; k += std::snprintf(buf + k, sizeof buf - k, "%ld ", v); }
    buf[k++] = '\n';
    if (write(1, buf, k) < 0) {}
    std::signal(s, SIG_DFL);
    std::raise(s);
}

// Leaves a known pattern (as numbers: NaN) where the frames of the program are going to be, so that a value that is read
// before it is written shows.
__attribute__((noinline)) static void scribble() {
    unsigned char garbage[24 * 1024];
    std::memset(garbage, 0xFF, sizeof garbage);
    asm volatile("" : : "r"(garbage) : "memory");
}

static Out run(ProgFn fn, Ctx &cx, std::string &why) {
    current = &cx;
    cx.at = 0;
    cx.nt = false;
    cx.text.clear();
    scribble();
    try {
        fn(cx);
        if (cx.replay) cx.choices.resize(std::min(cx.choices.size(), cx.at));
        return PASS;
    }
    catch (Discard const &) { return DISCARD; }
    catch (Fail const &f) { why = f.what; if (cx.replay) cx.choices.resize(std::min(cx.choices.size(), cx.at)); return FAIL; }
    catch (std::exception const &e) { why = std::string("unexpected exception: ") + e.what(); return FAIL; }
    catch (...) { why = "unexpected exception"; return FAIL; }
}

static bool fails(ProgFn fn, std::vector<long> const &ch, std::string &why, std::string &text, std::vector<long> &norm) {
    Ctx cx;
    cx.replay = true;
    cx.verbose = true;
    cx.choices = ch;
    Out const o = run(fn, cx, why);
    text = cx.text;
    norm = cx.choices;
    return o == FAIL;
}

static void shrink(ProgFn fn, std::vector<long> &best, std::string &why, std::string &text) {
    std::string w, t;
    std::vector<long> nm;
    int budget = 4000;
    if (!fails(fn, best, w, t, nm)) return;
    best = nm; why = w; text = t;
    bool progress = true;
    while (progress && budget > 0) {
        progress = false;
        for (std::size_t i = 0; i < best.size() && budget > 0; ++i) {
            long const v = best[i];
            std::vector<long> cand;
            if (v > 0) cand.push_back(0);
            if (v > 1) cand.push_back(1);
            if (v > 4) cand.push_back(v / 2);
            if (v > 2) cand.push_back(v - 2);
            if (v > 0) cand.push_back(v - 1);
            for (long x : cand) {
                std::vector<long> tr = best;
                tr[i] = x;
                --budget;
                if (fails(fn, tr, w, t, nm) && nm < best) { best = nm; why = w; text = t; progress = true; break; }
                if (i >= best.size()) break;
            }
        }
    }
}

static std::string jstr(std::string const &s) {
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += char(ch); }
        else if (ch < 32) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += char(ch);
    }
    return r + "\"";
}
static std::string jvec(std::vector<long> const &v) { std::string r = "["; for (std::size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; }

}

// driver SEED CASES [PROGRAM]            run every program (or one) on CASES generated cases
// driver --replay PROGRAM [CHOICE...] [/ CHOICE...]    run one program on a choice sequence, or on several one after the
//                                        other in one process (a history of calls); exit 1 if it fails
int main(int argc, char **argv) {
    using namespace vt;
    for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL}) std::signal(s, on_signal);
    if (argc >= 3 && !std::strcmp(argv[1], "--replay")) {
        for (Prog const &p : progs()) if (!std::strcmp(p.name, argv[2])) {
            current_name = p.name;
            for (int i = 3;; ++i) {
                Ctx cx;
                cx.replay = cx.verbose = true;
                for (; i < argc && std::strcmp(argv[i], "/"); ++i) cx.choices.push_back(std::atol(argv[i]));
                std::string why;
                Out const o = run(p.fn, cx, why);
                std::printf("%s: %s\n  program: %s\n  %s\n  %s\n", p.name, o == PASS ? "holds" : o == DISCARD ? "discarded" : "FAILS", p.text, cx.text.c_str(), why.c_str());
                if (o == FAIL) return 1;
                if (i >= argc) return 0;
            }
        }
        std::fprintf(stderr, "no such program\n");
        return 2;
    }
    std::uint64_t const seed = argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1;
    long const cases = argc > 2 ? std::atol(argv[2]) : 100;
    for (Prog const &p : progs()) {
        if (argc > 3 && std::strcmp(argv[3], p.name)) continue;
        current_name = p.name;
        std::printf("START\t%s\n", p.name);
        std::fflush(stdout);
        std::uint64_t h = 1469598103934665603ull ^ (seed * 0x9e3779b97f4a7c15ull);
        for (char const *q = p.name; *q; ++q) h = (h ^ (unsigned char)*q) * 1099511628211ull;
        long n = 0, nontriv = 0, disc = 0, evals = 0;
        std::set<std::uint64_t> distinct;
        std::string sample, why, text;
        std::vector<long> bad;
        std::vector<std::vector<long> > history;
        bool failed = false;
        bool fixed_inputs = false;
        while (n < cases && disc < 10 * cases + 1000 && !fixed_inputs) {
            Ctx cx;
            cx.rng = h + 0x632be59bd9b4e019ull * std::uint64_t(n + disc + 1);
            cx.collect = sample.empty();
            Out const o = run(p.fn, cx, why);
            if (history.size() < 600) history.push_back(cx.choices);
            if (o == DISCARD) { ++disc; continue; }
            ++n;
            evals += cx.evaluations;
            if (cx.choices.empty()) fixed_inputs = true;   // a program whose operands are all compile-time constants
            if (o == FAIL) { failed = true; bad = cx.choices; break; }
            if (cx.nt) {
                ++nontriv;
                std::uint64_t d = 1469598103934665603ull;
                for (long v : cx.choices) d = (d ^ std::uint64_t(v)) * 1099511628211ull;
                distinct.insert(d);
                if (sample.empty() && n > 1) sample = cx.text;
            }
        }
        std::printf("RESULT\t{\"prog\":%s,\"text\":%s,\"cases\":%ld,\"checks\":%ld,\"nontrivial\":%ld,\"distinct\":%ld,\"discarded\":%ld,\"sample\":%s", jstr(p.name).c_str(), jstr(p.text).c_str(), n, evals, nontriv, (long)distinct.size(), disc, jstr(sample).c_str());
        if (failed) {
            std::string const first = why;
            shrink(p.fn, bad, why, text);
            std::printf(",\"fail\":{\"why\":%s,\"inputs\":%s,\"choices\":%s,\"history\":[", jstr(why).c_str(), jstr(text).c_str(), jvec(bad).c_str());
            for (std::size_t i = 0; i < history.size(); ++i) std::printf("%s%s", i ? "," : "", jvec(history[i]).c_str());
            std::printf("]}");
        }
        std::printf("}\n");
        std::fflush(stdout);
    }
    std::printf("DONE\n");
    return 0;
}
