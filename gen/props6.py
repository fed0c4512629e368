"""Generators: what is known at compile time (storage, structure) and evaluation in constant expressions."""
from props5 import *

STATIC = [k for k in KINDS_STATIC]


@prop("P24", rule="a case is one run of one generated program; the structure of the result (components, where each is stored, size) is a function of the types, the values are generated; non-trivial when the result has a component", assumptions=["basis blades known at compile time"])
def p24(rng, scale):
    out = []

    def emit(p, g, reach, label, lazy=False):
        p.emit('shape::check(cx, shape::of(%s), %s, sizeof(%s), "%s");' % (g, reach, g, label))

    def binary(space, limit, kinds=None, ops=None):
        p, a, b = two(rng, space, limit, kinds)
        s, n = p.space, p.n
        p.emit("static ref::Metric const M = %s;" % s.ref)
        p.emit("shape::Shape const sa = shape::of(%s), sb = shape::of(%s);" % (a.g, b.g))
        pairs = a.size * b.size
        os_ = rng.sample(ops or ["gp", "lcont", "rcont", "dot", "hip", "sp", "op", "add", "sub"], 3 if pairs <= 12 else 1)
        for o in os_:
            g = p.fresh("g")
            e = {"add": "%s + %s", "sub": "%s - %s"}.get(o, "ga::" + o + "(%s, %s" + ("" if o in ("add", "sub") else ", " + s.cpp) + ")") % (a.g, b.g)
            p.emit("auto const %s = %s;" % (g, e))
            f = "shape::sum(sa, sb)" if o in ("add", "sub") else "shape::product(%d, sa, sb, [&](ref::MV const &x, ref::MV const &y) { return ref::%s(%sx, y); })" % (n, o, "" if o in ("op", "rp") else "M, ")
            emit(p, g, f, o)
            if o not in ("add", "sub") and a.kind != "native" and b.kind != "native" and pairs <= 20 and rng.random() < .4:
                z = p.fresh("z")
                p.emit("auto const %s = [&] { auto const [lz, x, y] = ga::make_lazy_context_tuple(%s, %s); auto const ex = ga::%s(x, y, %s); cx.require(std::is_empty_v<std::decay_t<decltype(ex)> > || sizeof(ex) == 1, \"a lazy expression of arguments takes no storage\"); return lz.eval(ex); }();" % (z, a.g, b.g, o, s.cpp))
                emit(p, z, f, "lazy " + o)
        return finish(p, "%s: structure of %s(%s, %s)" % (s.name, "/".join(os_), a.text, b.text), .3 + .03 * pairs * len(os_), cases=20, pre='#include "shape.hpp"\n')

    def unary():
        p, a = one(rng, lambda r: any_space(r, 6), 64)
        s, n = p.space, p.n
        p.emit("shape::Shape const sa = shape::of(%s);" % a.g)
        os_ = rng.sample(["reverse", "involute", "conjugate", "neg", "plus", "take", "twice", "scaled"], 3)
        k = rng.randint(0, n)
        w = rng.choice([-3, -1, 2, 4])
        for o in os_:
            g = p.fresh("g")
            e = {"neg": "-%s", "plus": "+%s", "take": "ga::take_grade(%%s, ga::c<%d>)" % k, "twice": "%s + %s", "scaled": "ga::c<%d> * %%s" % w}.get(o, "ga::" + o + "(%s)")
            e = e % (a.g, a.g) if o == "twice" else e % a.g
            if o == "scaled" and w == -1:
                e = e.replace("ga::c<-1>", "ga::c<-5>")
            e = "ga::gp(ga::c<%d>, %s, %s)" % (w, a.g, s.cpp) if o == "scaled" else e
            p.emit("auto const %s = %s;" % (g, e))
            emit(p, g, "shape::graded(sa, %d)" % k if o == "take" else "sa", o)
        return finish(p, "%s: structure of %s of %s" % (s.name, "/".join(os_), a.text), .3 + .01 * a.size * len(os_), cases=20, pre='#include "shape.hpp"\n')

    def constants():
        """Expressions of constants are constants."""
        s = any_space(rng, 5)
        p = Program(s)
        n = s.n
        p.emit("static ref::Metric const M = %s;" % s.ref)
        kinds = ["const", "cblade", "cvector", "cterm", "qterm", "csum"]
        e = p.operand(rng, rng.choice(kinds))
        expr, ref_, text, size = e.g, e.r, e.text, e.size
        for _ in range(rng.randint(1, 3)):
            b = p.operand(rng, rng.choice(kinds))
            if size * b.size > 12:
                break
            o = rng.choice(["gp", "op", "lcont", "rcont", "add", "sub", "reverse", "neg", "sp"])
            if o in ("reverse", "neg"):
                expr, ref_, text = ("ga::reverse(%s)" % expr, "ref::reverse(%s)" % ref_, "reverse(%s)" % text) if o == "reverse" else ("(-(%s))" % expr, "(-1 * %s)" % ref_, "-(%s)" % text)
                continue
            text = "%s(%s, %s)" % (o, text, b.text)
            if o in ("add", "sub"):
                c = "+" if o == "add" else "-"
                expr, ref_, size = "(%s %s %s)" % (expr, c, b.g), "(%s %s %s)" % (ref_, c, b.r), size + b.size
            else:
                expr, ref_, size = "ga::%s(%s, %s, %s)" % (o, expr, b.g, s.cpp), "ref::%s(%s%s, %s)" % (o, "" if o == "op" else "M, ", ref_, b.r), size * b.size
        p.emit("auto const g = %s;" % expr)
        p.emit('for (auto const &c : shape::of(g)) cx.require(!c.stored, "a coefficient of an expression of constants is stored");')
        p.emit('cx.require(sizeof(g) == 1 && std::is_empty_v<std::decay_t<decltype(g)> >, "an expression of constants takes storage"); cx.nontrivial();')
        p.emit('cx.eq(%s, %s, "value", VT_REL, 1);' % (dense(n, "g", True), ref_))
        return finish(p, "%s: constant %s" % (s.name, text), .3 + .04 * size, cases=2, pre='#include "shape.hpp"\n')

    out = unique(lambda: binary(orth_space, 20), int(70 * scale)) + unique(lambda: binary(lambda r: any_space(r, 5), 64), int(50 * scale)) + unique(unary, int(40 * scale)) + unique(constants, int(60 * scale))
    return out


@prop("P25", rule="a case is one generated program evaluated at compile time on one of the twelve sets of inputs drawn with it", assumptions=["functions that GCC evaluates in constant expressions"])
def p25(rng, scale):
    K = 12

    def literal():
        w = rng.random()
        return repr(float(rng.randint(-4, 4)) if w < .5 else rng.randint(-40, 40) / 8 if w < .8 else rng.randint(-2000, 2000) / 4.0)

    class Literal(Program):
        def __init__(self, s):
            super().__init__(s)
            self.rows, self.nz = 0, set()

        def num(self, how="num"):
            x = self.fresh("x")
            self.emit("constexpr double %s = X[K][%d];" % (x, self.rows))
            if how == "numnz":
                self.nz.add(self.rows)
            self.rows += 1
            return x

        def declare(self, expr, refexpr, text, size, const=True):
            v, r = self.fresh("a"), self.fresh("r")
            self.emit("constexpr auto %s = %s;" % (v, expr))
            self.emit("ref::MV const %s = %s;" % (r, refexpr))
            self.emit('cx.input("%s", %s);' % (v, r))
            return Operand(v, r, text, size)

        def close(self, text, weight):
            rows = []
            for _ in range(K):
                row = []
                for i in range(self.rows):
                    v = literal()
                    while i in self.nz and float(v) == 0:
                        v = literal()
                    row.append(v)
                rows.append("{%s}" % ", ".join(row or ["0"]))
            body = ["    static ref::Metric const M = %s;" % self.space.ref, "    static constexpr double X[%d][%d] = {%s};" % (K, max(1, self.rows), ", ".join(rows)), "    auto const run = [&](auto const k) {", "    constexpr int K = decltype(k)::value;"]
            body += self.lines + ["    };", "    switch (cx.draw(0, %d)) {" % (K - 1)] + ["    case %d: run(std::integral_constant<int, %d>()); break;" % (i, i) for i in range(K)] + ["    }"]
            q = Prog(text + " on " + "; ".join(rows), "\n".join(body), cases=K * 4, weight=weight)
            q.n = self.n
            return q

    kinds = ["const", "scalar", "cblade", "cvector", "cterm", "qterm", "rterm", "sum", "csum", "mixsum", "vec"]
    FUNCTIONS = ["cp", "dp", "ns_gp", "ns_op", "ns_lcont", "ns_cp", "ns_rp", "ns_sp", "native", "native", "native_right", "native_right", "div", "igp_native", "dual", "undual", "undual", "ns_dual", "ns_undual", "dual_native",
                 "even", "even", "odd", "odd", "rotor", "igp", "rnorm", "unit", "inv", "largest_grade", "take_largest", "take_rt", "exp", "exp", "scalar", "scalar", "joins"]

    def both(p, e, a, b, r, label, rat, scale_, rel="VT_REL"):
        n = p.n
        p.emit("constexpr auto g = %s;" % e("constexpr ", a, b))
        p.emit('cx.eq(%s, %s, "%s in a constant expression", %s, %s);' % (dense(n, "g", rat), r, label, rel, scale_))
        p.emit("auto const at_run_time = [&](auto x, auto y) { asm volatile(\"\" : : \"g\"(&x), \"g\"(&y) : \"memory\"); return %s; };" % e("", "x", "y"))
        p.emit('cx.eq(%s, %s, "%s at run time and in a constant expression", %s, %s);' % (dense(n, "at_run_time(%s, %s)" % (a, b), rat), dense(n, "g", rat), label, "1e-15" if rel == "VT_REL" else "1e-13", scale_))

    def binary():
        s = any_space(rng, 5)
        p = Literal(s)
        a, b = p.operand(rng, rng.choice(kinds)), p.operand(rng, rng.choice(kinds))
        if a.size * b.size > 16:
            return None
        o = rng.choice(METRIC_OPS + ["op", "op", "gp", "add", "sub", "lazy", "lazy2", "rp"])
        if o in ("add", "sub"):
            c = "+-"[o == "sub"]
            e, r = (lambda q, x, y: "%s %s %s" % (x, c, y)), "(%s %s %s)" % (a.r, c, b.r)
        elif o == "lazy":
            e = lambda q, x, y: "[](auto const &u, auto const &v) { auto const [lz, f, h] = ga::make_lazy_context_tuple(u, v); return lz.eval(ga::gp(f, h, %s) + ga::c<2> * f); }(%s, %s)" % (s.cpp, x, y)
            r = "(ref::gp(M, %s, %s) + 2 * %s)" % (a.r, b.r, a.r)
        elif o == "lazy2":
            e = lambda q, x, y: "[](auto const &u, auto const &v) { auto const [lz, f, h] = ga::make_lazy_context_tuple(u, v); return lz.eval(ga::reverse(ga::op(f, h, %s)) - h); }(%s, %s)" % (s.cpp, x, y)
            r = "(ref::reverse(ref::op(%s, %s)) - %s)" % (a.r, b.r, b.r)
        else:
            e = lambda q, x, y: "ga::%s(%s, %s, %s)" % (o, x, y, s.cpp)
            r = "ref::%s(%s%s, %s)" % (o, "" if o in ("op", "rp") else "M, ", a.r, b.r)
        both(p, e, a.g, b.g, r, o, True, norm_scale(a.r, b.r))
        return p.close("%s: constexpr %s(%s, %s)" % (s.name, o, a.text, b.text), .6 + .1 * a.size * b.size)

    def unary():
        s = any_space(rng, 4)
        p = Literal(s)
        n = s.n
        o = rng.choice(["reverse", "involute", "conjugate", "neg", "take", "rnorm_sqr", "inv", "dual", "grade", "copy"])
        if o in ("inv", "dual") and any(s.norm(b) == 0 for b in ((1 << n) - 1,)):
            return None
        if o == "inv":
            bl = [b for b in range(1 << n) if s.norm(b) != 0 and (b & (b - 1) == 0 or s.norm(b) == det_diag(s, b))]
            a = p.operand(rng, rng.choice(["cblade", "cterm", "rterm"]), "numnz", blades=bl)
        else:
            a = p.operand(rng, rng.choice(kinds))
        b = a
        k = rng.randint(0, n)
        rat = True
        if o == "grade":
            if a.size > 4 or "/" in a.text:
                return None
            p.emit("constexpr ga::grade_t g = ga::grade(%s, ga::c<0>); cx.require(long(g) == ref::gradeflag(%s, 0), \"grade in a constant expression\"); cx.nontrivial();" % (a.g, a.r))
            return p.close("%s: constexpr grade of %s" % (s.name, a.text), .8)
        if o == "copy":
            p.emit("constexpr auto g = [](auto const &x) { ga::full_multivector_t<double, %d> y; ga::trivial_copy(ga::gp(ga::scalar(1.0), x, %s), y); return y; }(%s);" % (n, s.cpp, a.g))
            p.emit('cx.eq(vt::D(%d, g), %s, "a copy made in a constant expression");' % (n, a.r))
            return p.close("%s: constexpr copy of %s" % (s.name, a.text), .6)
        e = {"neg": "-%s", "take": "ga::take_grade(%%s, ga::c<%d>)" % k, "rnorm_sqr": "ga::rnorm_sqr(%%s, %s)" % s.cpp, "inv": "ga::inv(%%s, %s)" % s.cpp, "dual": "ga::dual(%%s, ga::pseudoscalar(%s), %s)" % (s.cpp, s.cpp)}.get(o, "ga::%s(%%s)" % o)
        r = {"neg": "(-1 * %s)", "take": "ref::take(%%s, %d)" % k, "rnorm_sqr": "ref::scalar(%d, ref::rnorm_sqr(M, %%s))" % n, "inv": "ref::inv(M, %s)", "dual": "ref::dual(M, %%s, ref::pseudo(%d))" % n}.get(o, "ref::%s(%%s)" % o) % a.r
        both(p, lambda q, x, y: e % x, a.g, a.g, r, o, rat, norm_scale(a.r, a.r))
        return p.close("%s: constexpr %s of %s" % (s.name, o, a.text), .6 + .05 * a.size)

    def runtime():
        """Basis blades whose index is an ordinary number of a constant expression."""
        s = orth_space(rng, 6)
        p = Literal(s)
        n = s.n
        i, j = rng.randint(1, n), rng.randint(1, n)
        x = p.num()
        p.emit("constexpr auto a = ga::e(ga::index_t(%d)); constexpr auto b = %s * ga::e(ga::index_t(%d));" % (i, x, j))
        p.emit("ref::MV const ra = ref::blade(%d, %d, 1), rb = ref::blade(%d, %d, %s);" % (n, 1 << (i - 1), n, 1 << (j - 1), x))
        o = rng.choice(METRIC_OPS + ["op"])
        e = lambda q, u, v: "ga::%s(%s, %s, %s)" % (o, u, v, s.cpp)
        both(p, e, "a", "b", "ref::%s(%sra, rb)" % (o, "" if o == "op" else "M, "), o, False, "1")
        return p.close("%s: constexpr %s(e(%d), r*e(%d))" % (s.name, o, i, j), .6)

    def functions():
        """The other functions, the calls with native numbers and those of the namespaces of the models."""
        o = rng.choice(FUNCTIONS)
        s = rng.choice([orth_space, orth_space, any_space])(rng, 4) if not o.startswith("ns_") else ns_space(rng, "ehpmc")
        if s.n > 5:
            return None
        p = Literal(s)
        n = s.n
        few = ["cblade", "cterm", "rterm", "qterm", "csum", "sum", "vec", "cvector"]

        def vector(nonzero):
            bs = rng.sample(range(n), min(n, 2))
            xs = [p.num("numnz") for _ in bs]
            if not any(s.norm(1 << k) != 0 for k in bs) and nonzero:
                return None
            return p.declare(" + ".join("%s * %s" % (x, bb(1 << k)) for x, k in zip(xs, bs)), " + ".join("ref::blade(%d, %d, %s)" % (n, 1 << k, x) for x, k in zip(xs, bs)), "vector<%s>" % ",".join(map(str, bs)), 2)

        rat, rel = True, "1e-12"
        if o in ("cp", "dp", "ns_gp", "ns_op", "ns_lcont", "ns_cp", "ns_rp", "ns_sp"):
            a, b = p.operand(rng, rng.choice(few)), p.operand(rng, rng.choice(few))
            if a.size * b.size > 12:
                return None
            f = o.replace("ns_", "")
            e = (lambda q, x, y: "%s::%s(%s, %s)" % (s.ns, f, x, y)) if o != f else (lambda q, x, y: "ga::%s(%s, %s, %s)" % (f, x, y, s.cpp))
            both(p, e, a.g, b.g, "ref::%s(%s%s, %s)" % (f, "" if f in ("op", "rp") else "M, ", a.r, b.r), o, rat, norm_scale(a.r, b.r))
            return p.close("%s: constexpr %s(%s, %s)" % (s.name, o, a.text, b.text), .8 + .1 * a.size * b.size)
        if o in ("native", "native_right", "div", "igp_native"):
            a = p.operand(rng, rng.choice(kinds))
            x = p.num("numnz")
            y = rng.choice(["%s", "%s", "float(%s)", "int(%s * 8)"]) % x
            f = rng.choice(["gp", "op", "lcont", "rcont", "dot", "hip", "sp", "cp"]) if o.startswith("native") else "igp"
            xr = "ref::scalar(%d, %s)" % (n, y)
            l, r = (xr, a.r) if o == "native" else (a.r, xr)
            m = rng.choice(["", ", " + s.cpp]) if f not in ("cp", "igp") else ", " + s.cpp
            if o == "div":
                e = lambda q, u, v: "%s / %s" % (u, v)
            else:
                e = lambda q, u, v: "ga::%s(%s, %s%s)" % ((f, v, u, m) if o == "native" else (f, u, v, m))
            both(p, e, a.g, y, "ref::%s(%s%s, %s)" % (f, "" if f == "op" else "M, ", l, r), o, rat, "(1 + ref::n1(%s) * (1 + std::fabs(%s) + 1 / std::fabs(%s)))" % (a.r, y, y), "1e-6" if "float" in y else rel)
            return p.close("%s: constexpr %s %s of %s and %s" % (s.name, o, f, a.text, y), .8)
        if o in ("dual", "undual", "ns_dual", "ns_undual", "dual_native"):
            if s.general and not s.ns or not s.general and s.norm((1 << n) - 1) == 0:
                return None
            f = o.replace("ns_", "").replace("_native", "")
            if o == "dual_native":
                x = p.num()
                a = Operand(x, "ref::scalar(%d, %s)" % (n, x), "native", 1)
            else:
                a = p.operand(rng, rng.choice(kinds))
            e = (lambda q, x, y: "%s::%s(%s)" % (s.ns, f, x)) if o.startswith("ns_") else (lambda q, x, y: "ga::%s(%s, ga::pseudoscalar(%s), %s)" % (f, x, s.cpp, s.cpp))
            both(p, e, a.g, a.g, "ref::%s(M, %s, ref::pseudo(%d))" % (f, a.r, n), o, rat, norm_scale(a.r), rel)
            return p.close("%s: constexpr %s of %s" % (s.name, o, a.text), .8)
        if o in ("even", "odd", "rotor", "igp", "rnorm", "unit", "inv"):
            v = vector(True)
            if v is None:
                return None
            if o in ("rnorm", "unit") and any(s.general or s.norm(1 << k) < 0 for k in range(n)):
                return None
            w = v
            if o in ("even", "rotor") or o in ("igp", "rnorm", "unit", "inv") and rng.random() < .5:
                u = vector(True)
                if u is None:
                    return None
                w = p.declare("ga::gp(%s, %s, %s)" % (v.g, u.g, s.cpp), "ref::gp(M, %s, %s)" % (v.r, u.r), "product of %s and %s" % (v.text, u.text), 4)
            # A literal that is no versor with an inverse is left out where the constants are made.
            safe = "(ga::rnorm_sqr(%s, %s) > 0.01 || ga::rnorm_sqr(%s, %s) < -0.01)" % (w.g, s.cpp, w.g, s.cpp)
            nrm = "std::fabs(ref::rnorm_sqr(M, %s))" % w.r
            p.emit("if constexpr (%s) {" % (safe if o not in ("rnorm", "unit") else "(ga::rnorm_sqr(%s, %s) > 0.01)" % (w.g, s.cpp)))
            if o in ("rnorm", "unit", "inv"):
                r = {"rnorm": "ref::scalar(%d, std::sqrt(%s))" % (n, nrm), "unit": "(1 / std::sqrt(%s)) * %s" % (nrm, w.r), "inv": "ref::inv(M, %s)" % w.r}[o]
                both(p, lambda q, x, y: "ga::%s(%s, %s)" % (o, x, s.cpp), w.g, w.g, r, o, rat, "ref::n1(%s)" % r, rel)
                p.emit("}")
                return p.close("%s: constexpr %s of %s" % (s.name, o, w.text), 1)
            a = p.operand(rng, rng.choice(["cblade", "cterm", "rterm", "sum", "vec"]))
            if a.size * w.size > 12:
                return None
            if o == "igp":
                both(p, lambda q, x, y: "ga::igp(%s, %s, %s)" % (x, y, s.cpp), a.g, w.g, "ref::igp(M, %s, %s)" % (a.r, w.r), o, rat, "%s / %s" % (norm_scale(a.r, w.r), nrm), rel)
            else:
                f = {"even": "apply_even_versor", "odd": "apply_odd_versor", "rotor": "apply_rotor"}[o]
                both(p, lambda q, x, y: "ga::%s(%s, %s, %s)" % (f, x, y, s.cpp), w.g, a.g, "ref::%s(M, %s, %s)" % (o, w.r, a.r), o, rat, norm_scale(w.r, w.r, a.r) + ("" if o == "rotor" else " / " + nrm), rel)
            p.emit("}")
            return p.close("%s: constexpr %s of %s and %s" % (s.name, o, w.text, a.text), 1 + .1 * a.size * w.size)
        if o in ("largest_grade", "take_largest", "take_rt"):
            a = p.operand(rng, rng.choice(["cblade", "cterm", "rterm", "sum", "csum", "vec"]))
            if a.size > 4 or "/" in a.text:
                return None
            t = rng.choice(["", ", 1e-6", ", ga::scalar(1e-6)"])
            if o == "largest_grade":
                p.emit('{ constexpr ga::grade_t g = ga::largest_grade(%s%s); int const w = ref::topgrade(%s, 1e-7L); cx.eqs(g, w < 0 ? -2 : w, "largest grade in a constant expression"); cx.nontrivial(); }' % (a.g, t, a.r))
                return p.close("%s: constexpr largest_grade of %s" % (s.name, a.text), 1)
            k = rng.randint(0, n)
            e = (lambda q, x, y: "ga::take_largest_grade(%s%s)" % (x, t)) if o == "take_largest" else (lambda q, x, y: "ga::take_grade(%s, %d)" % (x, k))
            w = "ref::take(%s, %s)" % (a.r, k if o == "take_rt" else "std::max(0, ref::topgrade(%s, 1e-7L))" % a.r)
            both(p, e, a.g, a.g, w, o, rat, norm_scale(a.r), rel)
            return p.close("%s: constexpr %s of %s" % (s.name, o, a.text), 1.5)
        if o == "exp":
            bs = [b for b in range(1, 1 << n) if popcount(b) == 2]
            if s.general or not bs:
                return None
            b = rng.choice(bs)
            x = p.num()
            p.emit("constexpr double t = (%s < 0 ? -1 : 1) * (%s * %s > 4 ? 2.0 : (%s < 0 ? -%s : %s));" % ((x,) * 6))
            p.emit("constexpr auto a = t * %s; ref::MV const ra = ref::blade(%d, %d, t);" % (bb(b), n, b))
            t = rng.choice(["", "1e-9, "])
            both(p, lambda q, u, v: "ga::exp(%s, %s%s)" % (u, t, s.cpp), "a", "a", "ref::exp(M, ra)", o, rat, "ref::n1(ref::exp(M, ra))", "1e-9")
            return p.close("%s: constexpr exp of r*<%s>" % (s.name, bname(b)), 1)
        if o == "scalar":
            x = p.num("numnz")
            p.emit("constexpr double u = 0.25 + (%s < 0 ? -%s : %s) / (1 + (%s < 0 ? -%s : %s));" % ((x,) * 6))
            f = rng.sample(["sqrt", "cbrt", "exp", "log", "cos", "sin", "tan", "cosh", "sinh", "tanh", "abs"], 2)
            inner = "std::%s((long double)u)" % (f[1] if f[1] != "abs" else "fabs")
            p.emit("long double const inner = %s; if constexpr (u > 0) {" % inner)
            if f[0] in ("sqrt", "log") and f[1] in ("log", "cos", "sin", "tan"):
                f[0] = "exp"
            want = "std::%s(inner)" % (f[0] if f[0] != "abs" else "fabs")
            both(p, lambda q, a, b: "ga::%s(ga::%s(%s))" % (f[0], f[1], a), "ga::scalar(u)", "ga::scalar(u)", "ref::scalar(%d, %s)" % (n, want), o, False, "10", "1e-11")
            p.emit("}")
            return p.close("constexpr %s(%s(r))" % tuple(f), .6)
        if o == "joins":
            if s.general or n > 3 or n < 2:
                return None
            i, j = rng.sample(range(n), 2)
            x, y = p.num("numnz"), p.num("numnz")
            p.emit("constexpr auto a = %s * %s; constexpr auto b = %s * %s;" % (x, bb(1 << i), y, bb(1 << j)))
            w = "ref::MV const w = ref::op(ref::blade(%d, %d, %s), ref::blade(%d, %d, %s));" % (n, 1 << i, x, n, 1 << j, y)
            p.emit(w)
            both(p, lambda q, u, v: "std::get<1>(ga::meet_and_join(%s, %s, %s))" % (u, v, s.cpp), "a", "b", "w", o, rat, "ref::n1(w)", rel)
            return p.close("%s: constexpr join of r*<%d> and r*<%d>" % (s.name, i, j), 3)
        return None

    return unique(binary, int(110 * scale)) + unique(unary, int(70 * scale)) + unique(functions, int(110 * scale)) + unique(runtime, int(16 * scale))
