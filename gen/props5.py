"""Generators: memory and undefined behaviour, configuration and number types."""
from props4 import *
from core import Prog as _Prog

SAN = ("-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-g1")
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1", "UBSAN_OPTIONS": "abort_on_error=1:halt_on_error=1:print_stacktrace=1"}


@prop("P22", env=SAN_ENV, rule="a case counts when some compared model value was not zero, or a lifetime was exercised; distinct by the generated inputs", assumptions=["memory errors and undefined operations that AddressSanitizer, UndefinedBehaviorSanitizer and a scribbled stack show in these programs", "leaks are not looked for: the library allocates nothing"])
def p22(rng, scale):
    out = []
    # Programs of the other properties, instrumented.
    share = {"P01": 3, "P02": 4, "P03": 5, "P04": 4, "P05": 3, "P06": 2, "P07": 3, "P08": 3, "P09": 3, "P10": 3, "P11": 3, "P12": 2, "P13": 2, "P15": 3, "P16": 2, "P17": 2, "P18": 2, "P19": 4, "P20": 6, "P21": 6}
    for pid, k in share.items():
        ps = [q for q in PROPS[pid]["gen"](rng, .15) if q.weight <= 1.2]
        want = max(1, int(k * scale))
        more = 1
        while len(ps) < want and more < 4:
            ps += [q for q in PROPS[pid]["gen"](rng, .15 * scale) if q.weight <= 1.2]
            more += 1
        for q in rng.sample(ps, min(len(ps), want)):
            out.append(_Prog("[%s] %s" % (pid, q.text), q.body, cases=min(q.cases, 60), weight=q.weight * 1.5, flags=SAN, pre=q.pre, headers=q.headers))

    def ret(p, text, weight=.6, cases=80, pre=""):
        return finish(p, text, weight, cases=cases, flags=SAN, pre="#include <deque>\n#include <memory>\n#include <vector>\n#include <optional>\n" + pre)

    def exact():
        """Coordinates from iterators over exactly as many elements as there are, and into the middle of others."""
        s = ns_space(rng)
        p = Program(s)
        model = s.ns[-1]
        n = s.n
        d = n - {"e": 0, "h": 1, "p": 1, "m": 2, "c": 2}[model]
        f = rng.choice(["vector"] + (["euclidean_vector", "point"] if model in "hmc" else ["euclidean_vector"]))
        m = n if f == "vector" else d
        ty = rng.choice(["double", "float"])
        cont = rng.choice(["heap", "unique_ptr", "vector", "deque"])
        p.emit("std::vector<double> const from = cx.nums(%d); for (double v : from) cx.input(\"coordinate\", v);" % m)
        if cont == "heap":
            p.emit("%s *q = new %s[%d]; struct Free { %s *x; ~Free() { delete[] x; } } free{q}; for (int i = 0; i < %d; ++i) q[i] = (%s)from[i];" % (ty, ty, m, ty, m, ty))
            b, e = "q", "q + %d" % m
        elif cont == "unique_ptr":
            p.emit("std::unique_ptr<%s[]> q(new %s[%d]); for (int i = 0; i < %d; ++i) q[i] = (%s)from[i];" % (ty, ty, m, m, ty))
            b, e = "q.get()", "q.get() + %d" % m
        else:
            p.emit("std::unique_ptr<std::%s<%s> > q(new std::%s<%s>(from.begin(), from.end()));" % (cont, ty, cont, ty))
            b, e = "q->begin()", "q->end()"
        p.emit("auto const g = %s::%s(%s, %s);" % (s.ns, f, b, e))
        if cont in ("vector", "deque", "unique_ptr"):
            p.emit("q.reset();")
        if f == "point" and model in "mc":
            p.emit("static geo::Conformal const G(%s, %d);" % ("true" if model == "c" else "false", d))
            r = "G.point(geo::Vec(from.begin(), from.end()))"
        else:
            r = "[&] { geo::Vec v(from.begin(), from.end()); v.resize(%d); %sreturn ref::vec(%d, v); }()" % (n, "v[%d] = 1; " % d if f == "point" else "", n)
        p.emit('cx.eq(%s, %s, "%s after its coordinates are gone");' % (dense(n, "g", True), r, f))
        return ret(p, "%s: %s from %s of %d %ss" % (s.name, f, cont, m, ty))

    def gone():
        """Results outlive their operands."""
        s = any_space(rng, 5)
        p = Program(s)
        kinds = [k for k in ["scalar", "rterm", "sbb", "sum", "mixsum", "vec", "kvec", "fmv", "dyn_s"] if s.n <= 4 or k not in ("kvec", "fmv")]
        a, b = p.operand(rng, rng.choice(kinds)), p.operand(rng, rng.choice(kinds))
        if a.size * b.size > 40:
            return None
        dyn = "runtime" in a.text + b.text
        if dyn and s.general:
            return None
        p.emit("static ref::Metric const M = %s;" % s.ref)
        if dyn and a.size * b.size > 1:
            return None
        o = rng.choice(["op", "gp", "lcont", "sp", "reversion", "add", "lazy", "ulazy"] if not dyn else ["op", "gp", "reversion"])
        q = a.kind if hasattr(a, "kind") else ""
        if o == "op":
            e, r = "ga::op(*x, *y, %s)" % s.cpp, "ref::op(%s, %s)" % (a.r, b.r)
        elif o in ("gp", "lcont", "sp"):
            e, r = "ga::%s(*x, *y, %s)" % (o, s.cpp), "ref::%s(M, %s, %s)" % (o, a.r, b.r)
        elif o == "reversion":
            e, r = "ga::reverse(*x)", "ref::reverse(%s)" % a.r
        elif o == "add":
            e, r = "*x + *y", "(%s + %s)" % (a.r, b.r)
        else:
            p.emit("auto const make = [](auto const &x, auto const &y) { auto lazy = ga::make_lazy_context(x, y); return lazy.eval(lazy.template argument<0>() + lazy.template argument<0>() - ga::c<2> * lazy.template argument<1>()); };")
            e, r = "make(*x, *y)", "(2 * %s - 2 * %s)" % (a.r, b.r)
        p.emit("typedef std::decay_t<decltype(%s)> A; typedef std::decay_t<decltype(%s)> B;" % (a.g, b.g))
        p.emit("std::unique_ptr<A> x(new A(%s)); std::unique_ptr<B> y(new B(%s));" % (a.g, b.g))
        p.emit("auto g = %s;" % e)
        p.emit("x.reset(); y.reset();")
        p.emit('cx.eq(%s, %s, "result after its operands are gone");' % (dense(s.n, "g", True), r))
        p.emit("auto const h = [](auto v) { return v; }(g);")
        p.emit('cx.eq(%s, %s, "a copy of it");' % (dense(s.n, "h", True), r))
        return ret(p, "%s: %s of (%s; %s) outlives them" % (s.name, o, a.text, b.text))

    def heap():
        """Values in memory of exactly their size: reading or writing past it shows."""
        n = rng.choice([1, 2, 3, 3, 4])
        p = Program(euclidean(n))
        support = random_support(rng, n, 8)
        R = stored_type(rng.choice(["double", "float", "long double"]), support, n, rng)
        wide = sorted(set(support) | set(random_support(rng, n, 6)))
        W = stored_type("double", wide, n, rng)
        p.emit("typedef %s R; typedef %s W;" % (R, W))
        p.emit("std::unique_ptr<R> x(new R); std::unique_ptr<W> y(new W); std::vector<R> v(3);")
        p.emit("vt::fill(cx, *x); for (auto &c : y->values()) c = 77;")
        p.emit("ref::MV const r = vt::D(%d, *x); cx.input(\"x\", r);" % n)
        p.emit("ga::%s(*x, *y);" % rng.choice(["trivial_copy", "checked_trivial_copy"]))
        p.emit('cx.eq(vt::D(%d, *y), r, "copy", 1e-6);' % n)
        p.emit("for (auto &c : v) c = std::as_const(*x);")
        p.emit("v.shrink_to_fit(); v.push_back(v[0]); v.insert(v.begin(), v.back()); v[1] = v[1]; ga::trivial_copy(v[2], v[2]);")
        p.emit('for (auto const &c : v) cx.eq(vt::D(%d, c), r, "in a vector", 1e-6);' % n)
        p.emit("std::optional<R> o; o = *x; x.reset(); std::unique_ptr<R[]> z(new R[2]); z[0] = z[1] = *o; o.reset();")
        p.emit('cx.eq(vt::D(%d, z[0]), r, "in an array", 1e-6); cx.eq(vt::D(%d, -z[1]), -r, "negated", 1e-6);' % (n, n))
        p.emit("long k = 0; for (auto it = z[1].values().begin(); it != z[1].values().end(); ++it) ++k; cx.require(k == %d, \"stored coefficients\");" % len(support))
        return ret(p, "%d dimensions: {%s} and {%s} in memory of their size" % (n, ",".join(map(bname, support)), ",".join(map(bname, wide))))

    def fresh():
        """Multivectors created in memory that held other values: nothing of these shows."""
        n = rng.choice([1, 2, 3, 4])
        p = Program(euclidean(n))
        support = random_support(rng, n, 8)
        kind = rng.choice(["full", "full", "runtime", "mixed"])
        ty = rng.choice(["double", "float", "long double", "int", "long"])
        fixed, R = [], stored_type(ty, support, n, rng)
        if kind == "runtime":
            lo = rng.randint(0, n)
            hi = rng.randint(lo, n)
            R = "ga::scaled_basis_blade_t<%s,%d,%d>" % (ty, lo, hi)
            support = [0]
        elif kind == "mixed":
            fixed = [b for b in support if len(support) > 1 and rng.random() < .4]
            fixed = fixed[:len(support) - 1]
            ks = [rng.choice([-2, -1, 1, 3]) for _ in fixed]
            R = "std::decay_t<decltype(%s)>" % " + ".join("ga::scaled_constant_basis_blade_t<%s>()" % ",".join([ty] + [str(i) for i in bits(b)]) if b not in fixed else "ga::c<%d,%s> * ga::unit_constant_basis_blade_t<%s>()" % (ks[fixed.index(b)], ty, ",".join(str(i) for i in bits(b))) for b in support)
        p.emit("typedef %s R; long const fill = cx.draw(1, 255); cx.input(\"bytes of the memory\", double(fill));" % R)
        want = "ref::MV(%d)%s" % (n, "".join(" + ref::blade(%d, %d, %d)" % (n, b, ks[i]) for i, b in enumerate(fixed)))
        p.emit("""auto const memory = [&](std::size_t bytes) { unsigned char *m = static_cast<unsigned char *>(::operator new(bytes)); for (std::size_t i = 0; i != bytes; ++i) *const_cast<unsigned char volatile *>(m + i) = (unsigned char)(fill); __asm__ volatile("" : "+r"(m) : : "memory"); return m; };""")
        p.emit("""auto const created = [&](R const &g, char const *what) { for (auto const &v : g.values()) cx.require(v == 0, what, "a stored coefficient of " + std::to_string(v)); for (auto const &b : g.bitsets()) cx.require(b == ga::bitset_t(0), what, "a stored basis blade of " + std::to_string(b)); cx.eq(vt::D(%d, g), %s, what); };""" % (n, want))
        p.emit("""auto const end = [](R *x) { x->~R(); ::operator delete(x); };""")
        p.emit("""{ R *const x = new (memory(sizeof(R))) R; created(*x, "default-initialised"); R const y(*x); created(y, "a copy"); end(x); }""")
        p.emit("""{ R *const x = new (memory(sizeof(R))) R(); created(*x, "value-initialised"); end(x); } { R *const x = new (memory(sizeof(R))) R{}; created(*x, "list-initialised"); end(x); }""")
        p.emit("""{ R *const x = new (memory(3 * sizeof(R))) R[3]; for (int i = 0; i < 3; ++i) created(x[i], "in an array"); ::operator delete(x); } for (auto const &x : std::vector<R>(2)) created(x, "in a vector"); { struct S { R x; } s; created(s.x, "a member"); created(std::optional<R>(std::in_place).value(), "in an optional"); }""")
        p.emit("""{ R *const x = new (memory(sizeof(R))) R; auto const g = ga::reverse(*x); auto const h = *x + %s; cx.eq(vt::D(%d, h), %s + %s, "a sum with it"); cx.eq(vt::D(%d, g), ref::reverse(%s), "its reverse"); end(x); }""" % ("ga::c<2>" if kind != "runtime" else "*x", n, want, "ref::blade(%d, 0, 2)" % n if kind != "runtime" else want, n, want) if kind != "runtime" else "")
        return ret(p, "%d dimensions: {%s} of %s in memory that was used before (%s%s)" % (n, ",".join(map(bname, support)) if kind != "runtime" else R, ty, kind, " constants at {%s}" % ",".join(map(bname, fixed)) if fixed else ""), pre="#include <new>\n")

    out += unique(fresh, int(10 * scale)) + unique(exact, int(10 * scale)) + unique(gone, int(16 * scale)) + unique(heap, int(10 * scale)) + unique(lambda: wide(rng, "all", flags=SAN, cases=60), int(16 * scale))
    return out


# ---------------------------------------------------------------------------------------------------------------------
# Configuration and number types.

NUMBERS = {"float": ("num", 24), "double": ("num", 53), "long double": ("num", 64), "int": ("integer", 31), "long": ("integer", 63)}
RANK = ["int", "long", "float", "double", "long double"]


def common(a, b):
    return RANK[max(RANK.index(a), RANK.index(b))]


@prop("P23", assumptions=["basis vector indices within the configured limit, constants within the configured integer type", "with float as the default floating-point type the results of compile-time fractions are compared to float precision"])
def p23(rng, scale):
    out = []

    def numbers():
        """Results are computed in the common type of the operands' numbers."""
        s = orth_space(rng, 4)
        n = s.n
        p = Program(s)
        ta = rng.choice(RANK)
        tb = rng.choice(RANK + [ta, ta, "long double"])
        ct = common(ta, tb)
        p.emit("static ref::Metric const M = %s;" % s.ref)

        def val(v, ty):
            support = random_support(rng, n, 5)
            if rng.random() < .35 and len(support) > 1:
                p.emit("%s %s; for (auto &x : %s.values()) x = draw%s();" % (stored_type(ty, support, n, rng), v, v, v))
                p.emit("ref::MV const r%s = vt::D(%d, %s);" % (v, n, v))
                return "%s{%s}" % (ty, ",".join(map(bname, support))), len(support)
            es, rs, ts = [], [], []
            some = False
            for b in support:
                if some and rng.random() < .25:
                    w = rng.choice([-2, -1, 2, 3])
                    es.append("ga::c<%d> * %s" % (w, bb(b)))
                    rs.append((b, str(w)))
                    ts.append("%d<%s>" % (w, bname(b)))
                else:
                    some = True
                    x = p.fresh("x")
                    p.emit("%s const %s = draw%s();" % (ty, x, v))
                    if rng.random() < .3:
                        p.emit("%s const *const y%s = &%s;" % (ty, x, x))
                        es.append("*y%s * %s" % (x, bb(b)))
                    else:
                        es.append("%s * %s" % (x, bb(b)))
                    rs.append((b, x))
                    ts.append("r<%s>" % bname(b))
            p.emit("auto const %s = %s;" % (v, " + ".join(es)))
            p.emit("ref::MV const r%s = %s;" % (v, p.mv(rs)))
            return ty + ": " + " + ".join(ts), len(support)
        for v, ty in (("a", ta), ("b", tb)):
            if ty == "long":
                # Products of such numbers need more digits than a double has.
                big = 28 if ct == "long" else 20
                e = "long(cx.draw(-(1l << %d), 1l << %d))" % (big, big)
            elif ty == "int":
                e = "int(cx.draw(-1000, 1000))"
            elif ty == "long double":
                e = "(long double)cx.num() + (long double)cx.draw(0, 1 << 20) / (1ll << 56)"
            elif ty == "double":
                e = "cx.num() + double(cx.draw(0, 1 << 10)) / (1ll << 40)"
            else:
                e = "float(cx.num())"
            p.emit("auto const draw%s = [&]() -> %s { return cx.flip() ? %s : (%s)cx.small(); };" % (v, ty, e, ty))
        (xa, na), (xb, nb) = val("a", ta), val("b", tb)
        if na * nb > 25:
            return None
        has_const = "<" in xa and any(t[0] in "-0123456789" for t in xa.split(": ")[-1].split(" + ")) or "<" in xb and any(t[0] in "-0123456789" for t in xb.split(": ")[-1].split(" + "))
        o = rng.choice(["op", "gp", "gp", "lcont", "dot", "sp", "add", "sub", "neg", "reverse", "twice", "twice"])
        p.emit('cx.input("a", ra); cx.input("b", rb);')
        one = o in ("neg", "reverse", "twice")
        if o in ("op",):
            e, r = "ga::op(a, b, %s)" % s.cpp, "ref::op(ra, rb)"
        elif o in ("gp", "lcont", "dot", "sp"):
            e, r = "ga::%s(a, b, %s)" % (o, s.cpp), "ref::%s(M, ra, rb)" % o
        elif o == "add":
            e, r = "a + b", "(ra + rb)"
        elif o == "sub":
            e, r = "a - b", "(ra - rb)"
        elif o == "neg":
            e, r = "-a", "(-1 * ra)"
        elif o == "reverse":
            e, r = "ga::reverse(a)", "ref::reverse(ra)"
        else:
            e, r = "a + a + a", "(3 * ra)"
        if one:
            ct = ta
        p.emit("auto const g = %s; ref::MV const w = %s;" % (e, r))
        # Sums of whole numbers, and single precision with small numbers, are exact.
        tol = {"int": "0", "long": "0", "float": "1e-6", "double": "2e-15", "long double": "4e-18"}[ct]
        p.emit('cx.eq(vt::D(%d, g), w, "%s", %s, ref::n1(ra) * (1 + ref::n1(rb)) + ref::n1(rb));' % (n, o, tol))
        if ct != "int":
            p.emit('cx.require(std::is_same_v<std::decay_t<decltype(g)>::coefficient_type, %s> || std::distance(g.values().begin(), g.values().end()) == 0, "the number type of the result");' % ct)
        return finish(p, "%s: %s of (%s) and (%s) in %s" % (s.name, o, xa, xb, ct), .5, cases=120)

    def functions():
        """Functions keep the precision of their argument."""
        s = orth_space(rng, 4)
        n = s.n
        p = Program(s)
        ty = rng.choice(["long double", "long double", "double", "float"])
        support = random_support(rng, n, 1 if rng.random() < .5 else 4)
        if len({popcount(b) for b in support}) > 1 or any(s.norm(b) == 0 for b in support):
            return None
        g1 = popcount(support[0])
        if g1 not in (0, 1, n - 1, n) and len(support) > 1:
            return None
        p.emit("static ref::Metric const M = %s;" % s.ref)
        p.emit("auto const draw = [&]() -> %s { return (%s)cx.numnz() + (%s)cx.draw(0, 1 << 20) / (1ll << %d); };" % (ty, ty, ty, {"long double": 56, "double": 40, "float": 20}[ty]))
        p.emit("auto a = %s; { int k = 0; for (auto &x : a.values()) x = draw(); (void)k; }" % (" + ".join("%s(1) * %s" % ("(%s)" % ty, bb(b)) for b in support)))
        p.emit('ref::MV const r = vt::D(%d, a); cx.input("a", r); ref::R const q = ref::rnorm_sqr(M, r), s1 = ref::n1(r);' % n)
        p.emit("cx.assume(std::fabs(q) > 0.01L * s1 * s1);")
        eps = {"long double": "2e-18", "double": "3e-15", "float": "3e-6"}[ty]
        f = rng.choice(["rnorm_sqr", "inv", "unit", "rnorm"])
        if f == "rnorm_sqr":
            p.emit('cx.eqs(vt::S(ga::rnorm_sqr(a, %s)), q, "rnorm_sqr", %s, s1 * s1);' % (s.cpp, eps))
        elif f == "inv":
            p.emit('cx.eq(vt::D(%d, ga::inv(a, %s)), (1 / q) * ref::reverse(r), "inv", 100 * %s);' % (n, s.cpp, eps))
        elif f == "rnorm":
            p.emit("cx.assume(q > 0);")
            p.emit('cx.eqs(vt::S(ga::rnorm(a, %s)), std::sqrt(q), "rnorm", 10 * %s);' % (s.cpp, eps))
        else:
            p.emit("cx.assume(q > 0);")
            p.emit('cx.eq(vt::D(%d, ga::unit(a, %s)), (1 / std::sqrt(q)) * r, "unit", 100 * %s);' % (n, s.cpp, eps))
        return finish(p, "%s: %s of %s{%s}" % (s.name, f, ty, ",".join(map(bname, support))), .5, cases=100)

    def tolerances(flags, flt, dbl, count):
        """A fair share of the number types and of the functions."""
        cells, out, seen = [], [], set()
        while len(out) < count:
            if not cells:
                cells = [(ty, what) for ty in ("float", "double", "float", "double", "long double", "int") for what in ("zero", "grade", "largest", "copy", "scalar")]
                rng.shuffle(cells)
            q = tolerance(flags, None, flt, dbl, *cells.pop())
            if q.name not in seen:
                seen.add(q.name)
                out.append(q)
        return out

    def tolerance(flags, headers, flt, dbl, ty, what):
        """Without a tolerance given, the configured one of the number type applies."""
        n = rng.choice([1, 2, 3])
        p = Program(euclidean(n, ns=False))
        t = {"float": flt, "double": dbl, "long double": 0.0, "int": 0.0}[ty]
        b = rng.choice(range(1, 1 << n))
        p.emit("typedef %s F; long double const t = %rL; long const k = cx.draw(0, 3); F const part = F(k == 0 ? 0.0L : k == 1 ? t / 2 : k == 2 ? t * 2 + (t == 0 ? (std::is_integral_v<F> ? 1.0L : 1e-9L) : 0.0L) : 1.0L) * (cx.flip() ? 1 : -1); bool const small = std::fabs((long double)part) <= t;" % (ty, t))
        p.emit('cx.input("part", double(part)); cx.nontrivial();')
        if what == "zero":
            p.emit('auto const x = part * %s; cx.require(ga::is_zero(x) == small, "is_zero");' % bb(b))
        elif what == "scalar":
            p.emit('cx.require(ga::is_zero(ga::scalar(+part)) == small, "is_zero of a scalar");')
        elif what == "grade":
            p.emit('auto const x = part * %s; ga::grade_t const g = ga::grade(x); cx.require(g == (small ? -2 : %d), "grade");' % (bb(b), popcount(b)))
        elif what == "largest":
            p.emit('auto const x = F(5) + part * %s; ga::grade_t const g = ga::largest_grade(x); cx.require(g == (small ? 0 : %d), "largest_grade");' % (bb(b), popcount(b)))
        else:
            p.emit("auto const x = F(5) + part * %s; ga::full_kvector_t<F,%d,0> g; bool thrown = false; try { ga::checked_trivial_copy(x, g); } catch (ga::bad_checked_copy_exception const &) { thrown = true; }" % (bb(b), n))
            p.emit('cx.require(thrown == !small, "checked_trivial_copy");')
        return finish(p, "default tolerance of %s (%g): %s" % (ty, t, what), .3, cases=30, flags=flags, headers=headers)
    out += unique(numbers, int(70 * scale)) + unique(functions, int(16 * scale))
    # Configurations.
    for i in range(max(1, int(round(scale)))):
        configs = []
        m = rng.choice([5, 6, 7, 7, 8, 8])
        configs.append((["-DGA_MAX_BASIS_VECTOR_INDEX=%d" % m], m, 1e-8, 1e-8, {}))
        m = rng.choice([15, 16, rng.randint(9, 14)])
        configs.append((["-DGA_MAX_BASIS_VECTOR_INDEX=%d" % m, "-DGA_DEFAULT_INTEGRAL_TYPE=%s" % rng.choice(["std::int32_t", "std::int32_t", "long long"])], m, 1e-8, 1e-8, {}))
        m = rng.choice([31, 32, 33, rng.randint(17, 62)])
        f, d = rng.choice([1e-3, 1e-5, 0.125]), rng.choice([1e-3, 1e-12, 0.0625])
        configs.append((["-DGA_MAX_BASIS_VECTOR_INDEX=%d" % m, "-DGA_DEFAULT_FLT_TOLERANCE=%rf" % f, "-DGA_DEFAULT_DBL_TOLERANCE=%r" % d, "-DGA_DEFAULT_FLOATING_POINT_TYPE=long double"], m, f, d, {}))
        configs.append((["-DGA_DEFAULT_FLOATING_POINT_TYPE=float", "-DVT_REL=2e-4"], 63, 1e-8, 1e-8, {}))
        for flags, m, f, d, _ in configs:
            fs = tuple(flags)
            loose = d > 1e-4
            single = any("=float" in x for x in flags)
            share = {"P01": 2, "P02": 2, "P03": 2, "P05": 2, "P06": 2, "P07": 2, "P08": 1, "P09": 2, "P12": 1, "P15": 0 if loose or single else 1, "P16": 1, "P17": 0 if loose else 1, "P18": 0 if loose or single else 1, "P19": 1, "P20": 0 if single or d != 1e-8 else 2, "P21": 0 if single else 2}
            for pid, k in share.items():
                if not k:
                    continue
                ps = [q for q in PROPS[pid]["gen"](rng, .1) if q.weight <= 1.2 and getattr(q, "n", 9) <= min(m, 9) and not q.flags and "basis vectors of" not in q.text]
                for q in rng.sample(ps, min(k, len(ps))):
                    out.append(_Prog("[%s, %s] %s" % (pid, " ".join(x[2:] for x in flags), q.text), q.body, cases=min(q.cases, 80), weight=q.weight, flags=fs, pre=q.pre, headers=q.headers))
            out += unique(lambda: wide(rng, "all", m, flags=fs, cases=60), 5)
            out += tolerances(fs, f, d, 16 if loose or d != 1e-8 else 4)
    out += tolerances((), 1e-8, 1e-8, int(10 * scale))
    return out
