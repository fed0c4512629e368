"""Generators: constructors and constants, copies, output and iteration, memory, configuration."""
from props3 import *


# ---------------------------------------------------------------------------------------------------------------------
# Constructors and named constants.

def coordinate(p, rng, kinds):
    """A coordinate argument: (C++ expression, model expression, text)."""
    k = rng.choice(kinds)
    if k == "const":
        w = rng.choice([-3, -2, -1, 0, 0, 1, 2, 5])
        return "ga::c<%d>" % w, str(w), "<%d>" % w
    if k == "named":
        i = rng.choice([0, 1, 2])
        return "%s::_%d" % (p.space.ns, i), str(i), "_%d" % i
    x = p.fresh("x")
    how = "integer" if k in ("int", "intr", "uint") else "num"
    p.emit("double const %s = cx.%s();" % (x, how))
    p.emit('cx.input("%s", %s);' % (x, x))
    if k == "double":
        return "+" + x, x, "r"
    if k == "lvalue":
        v = p.fresh("l")
        p.emit("double %s = %s;" % (v, x))
        p.kept.append((v, x))
        return v, x, "lvalue"
    if k == "clvalue":
        return x, x, "const lvalue"
    if k == "float":
        return "float(%s)" % x, x, "float"
    if k == "int":
        return "int(%s)" % x, x, "int"
    if k == "ldouble":
        return "(long double)(%s)" % x, x, "long double"
    if k == "scalar":
        return "ga::scalar(+%s)" % x, x, "scalar"
    if k == "slvalue":
        v = p.fresh("l")
        p.emit("auto %s = ga::scalar(+%s);" % (v, x))
        p.kept.append(("*%s.values().begin()" % v, x))
        return v, x, "scalar lvalue"
    raise ValueError(k)


@prop("P19", assumptions=["coordinates that the library documents: native numbers, scalars and compile-time constants, mixed freely (points of the conformal models have at least one floating-point or constant coordinate among native ones)"])
def p19(rng, scale):
    KINDS = ["double", "double", "lvalue", "clvalue", "float", "int", "const", "const", "named", "scalar", "slvalue"]

    def call(rng, s, f, args):
        if s.ns and rng.random() < .6:
            return "%s::%s(%s)" % (s.ns, f, ", ".join(args))
        return "ga::%s(%s)" % (f, ", ".join([s.cpp] + args))

    def vectors():
        s = any_space(rng, 9) if rng.random() < .4 else ns_space(rng)
        p = Program(s)
        p.kept = []
        f = "vector"
        n = s.n
        model = s.ns[-1] if s.ns else None
        d = n - {"e": 0, "h": 1, "p": 1, "m": 2, "c": 2}.get(model, 0)
        if model and rng.random() < .7:
            f = rng.choice(["euclidean_vector", "point"] if model in "hmc" else ["euclidean_vector"])
        m = n if f == "vector" else d
        kinds = [k for k in KINDS if s.ns or k != "named"]
        if f == "point" and model in "mc":
            # Halves: native integers alone would be divided as integers.
            kinds = [k for k in kinds if k != "int"]
        if rng.random() < .25:
            kinds = [rng.choice(kinds)] * 2 + [rng.choice(kinds)]
        cs = [coordinate(p, rng, kinds) for _ in range(m)]
        ts = [c[2] for c in cs]
        if "int" in ts and not set(ts) & {"r", "lvalue", "const lvalue", "float", "scalar", "scalar lvalue"} and (any(t[0] in "<_" for t in ts) or n != m):
            return None  # native integers alone do not mix with constants
        p.emit("auto const g = %s;" % call(rng, s, f, [c[0] for c in cs]))
        refs = [(1 << i, c[1]) for i, c in enumerate(cs)]
        r = p.mv(refs)
        if f == "point":
            if model == "h":
                r += ".add(%d, 1)" % (1 << d)
            else:
                p.emit("static geo::Conformal const G(%s, %d);" % ("true" if model == "c" else "false", d))
                r = "G.point(geo::Vec{%s})" % ", ".join(c[1] for c in cs)
        p.emit("ref::MV const w = %s;" % r)
        p.emit('cx.eq(%s, w, "%s");' % (dense(n, "g", True), f))
        for v, x in p.kept:
            p.emit('cx.eqs(vt::S(%s), %s, "the argument afterwards");' % (v, x))
        if rng.random() < .3 and n <= 5:
            # Built again from the same arguments, and used.
            p.emit("auto const h = %s;" % call(rng, s, f, [c[0] for c in cs]))
            p.emit("static ref::Metric const M = %s;" % s.ref)
            p.emit('cx.eq(%s, ref::sp(M, w, w), "scalar product with itself");' % dense(n, "ga::sp(g, h, %s)" % s.cpp, True))
        return finish(p, "%s: %s(%s)" % (s.name, f, ", ".join(c[2] for c in cs)), .4)

    def iterators():
        s = ns_space(rng) if rng.random() < .7 else any_space(rng, 9)
        p = Program(s)
        n = s.n
        model = s.ns[-1] if s.ns else None
        d = n - {"e": 0, "h": 1, "p": 1, "m": 2, "c": 2}.get(model, 0)
        f = "vector"
        if model and rng.random() < .7:
            f = rng.choice(["euclidean_vector", "point"] if model in "hmc" else ["euclidean_vector"])
        m = n if f == "vector" else d
        ty = rng.choice(["double", "double", "float", "long double"] + (["int"] if n == m else []))
        before, after = rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1, 2])
        p.emit("std::vector<double> const from = [&] { std::vector<double> r; for (int i = 0; i < %d; ++i) r.push_back(cx.%s()); return r; }();" % (m + before + after, "integer" if ty == "int" else "num"))
        p.emit('for (double const v : from) cx.input("coordinate", v);')
        cont = rng.choice(["vector", "array", "pointer", "cpointer", "deque", "reverse", "const vector"])
        size = m + before + after
        if cont == "array":
            p.emit("std::array<%s, %d> q; for (int i = 0; i < %d; ++i) q[i] = %s(from[i]);" % (ty, size, size, "(%s)" % ty))
        elif cont in ("pointer", "cpointer"):
            p.emit("%s q[%d]; for (int i = 0; i < %d; ++i) q[i] = (%s)(from[i]);" % (ty, size, size, ty))
        elif cont == "deque":
            p.emit("std::deque<%s> q(from.begin(), from.end());" % ty)
        else:
            p.emit("std::vector<%s> %sq(from.begin(), from.end());" % (ty, "const " if cont == "const vector" else ""))
        b, e = ("q.begin()", "q.end()")
        if cont == "pointer":
            b, e = "&q[0]", "&q[0] + %d" % size
        elif cont == "cpointer":
            b, e = "(%s const *)q" % ty, "(%s const *)q + %d" % (ty, size)
        elif cont == "reverse":
            b, e = "q.rbegin()", "q.rend()"
        if rng.random() < .3 and cont not in ("pointer", "cpointer", "const vector", "reverse"):
            b, e = "q.cbegin()", "q.cend()"
        b, e = b + (" + %d" % before if before else ""), e + (" - %d" % after if after else "")
        if rng.random() < .4:
            p.emit("auto const b = %s; auto const t = %s;" % (b, e))
            b, e = "b", "t"
        p.emit("auto const g = %s;" % call(rng, s, f, [b, e]))
        at = "from[%d - i]" % (size - 1 - before) if cont == "reverse" else "from[i + %d]" % before
        p.emit("geo::Vec u; for (int i = 0; i < %d; ++i) u.push_back(%s);" % (m, at))
        if f == "point" and model in "mc":
            p.emit("static geo::Conformal const G(%s, %d);" % ("true" if model == "c" else "false", d))
            r = "G.point(u)"
        else:
            r = "[&] { geo::Vec v = u; v.resize(%d); %sreturn ref::vec(%d, v); }()" % (n, "v[%d] = 1; " % d if f == "point" else "", n)
        p.emit('cx.eq(%s, %s, "%s");' % (dense(n, "g", True), r, f))
        p.emit("for (int i = 0; i < %d; ++i) cx.eqs(q[i], from[i], \"the coordinates afterwards\");" % size)
        return finish(p, "%s: %s from %s of %s, %d before, %d after, %s" % (s.name, f, cont, ty, before, after, b), .4, pre="#include <deque>\n")

    def names():
        """Every named constant of every namespace has the value its name stands for."""
        out = []
        spaces = [euclidean(n) for n in range(1, 6)] + [homogeneous(d) for d in range(1, 5)] + [plane_based(d) for d in range(1, 5)] + [minkowski(d) for d in range(1, 4)] + [conformal(d) for d in range(1, 4)]
        for s in spaces:
            p = Program(s)
            n, model = s.n, s.ns[-1]
            d = n - {"e": 0, "h": 1, "p": 1, "m": 2, "c": 2}[model]
            pairs = [("e%d" % (i + 1), {1 << i: "1"}) for i in range(d)]
            pairs += [("_0", {}), ("_1", {0: "1"}), ("_2", {0: "2"}), ("I", {(1 << n) - 1: "1"}), ("pseudoscalar()", {(1 << n) - 1: "1"})]
            o, i = 1 << d, 2 << d
            if model == "h":
                pairs += [("ep", {o: "1"})]
            elif model == "p":
                pairs += [("e0", {o: "1"})]
            elif model == "m":
                pairs += [("ep", {o: "1"}), ("em", {i: "1"}), ("no", {o: "-.5L", i: ".5L"}), ("ni", {o: "1", i: "1"})]
            elif model == "c":
                pairs += [("no", {o: "1"}), ("ni", {i: "1"}), ("ep", {o: "-1", i: ".5L"}), ("em", {o: "1", i: ".5L"})]
            p.emit("double const x = cx.numnz();")
            p.emit("static ref::Metric const M = %s;" % s.ref)
            for name, terms in pairs:
                w = "ref::MV(%d)" % n + "".join(".add(%d, %s)" % t for t in sorted(terms.items()))
                p.emit('cx.eq(vt::DQ<%d>(%s::%s), %s, "%s");' % (n, s.ns, name, w, name))
                p.emit('cx.eq(%s, x * %s, "x %s");' % (dense(n, "x * %s::%s" % (s.ns, name), True), w, name))
            if model != "p":
                if model == "e":
                    w = "ref::pseudo(%d)" % n
                elif model == "h":
                    w = "ref::rcont(M, ref::pseudo(%d), ref::blade(%d, %d, 1))" % (n, n, o)
                else:
                    a, b = ("ref::blade(%d, %d, 1)" % (n, o), "ref::blade(%d, %d, 1)" % (n, i))
                    w = "ref::rcont(M, ref::pseudo(%d), ref::op(%s, %s))" % (n, a, b)
                p.emit('cx.eq(vt::DQ<%d>(%s::Ie), %s, "Ie");' % (n, s.ns, w))
            p.emit("cx.require(%s::basis_vectors_names.size() == %d, \"number of names\");" % (s.ns, n)) if False else None
            out.append(finish(p, "%s: named constants" % s.name, 1.5, cases=8))
        return out

    def basis():
        s = any_space(rng, 9)
        p = Program(s)
        n = s.n
        p.emit("long const i = cx.draw(1, %d); double const x = cx.numnz();" % n)
        p.emit('cx.input("i", double(i));')
        what = rng.choice(["e", "e", "ps", "helpers", "helpers"])
        if what == "e":
            k = rng.randint(1, n)
            ty = rng.choice(["long", "int", "unsigned", "ga::index_t", "short"])
            p.emit('cx.eq(vt::D(%d, ga::e(%s(i))), ref::blade(%d, 1u << (i - 1), 1), "e(i)");' % (n, ty, n))
            p.emit('cx.eq(vt::D(%d, ga::e(ga::c<%d>)), ref::blade(%d, %d, 1), "e(c<%d>)");' % (n, k, n, 1 << (k - 1), k))
            p.emit('cx.eq(vt::D(%d, x * ga::e(%s(i))), ref::blade(%d, 1u << (i - 1), x), "x e(i)");' % (n, ty, n))
            text = "e(%s), e(c<%d>)" % (ty, k)
        elif what == "ps":
            p.emit('cx.eq(vt::D(%d, ga::pseudoscalar(%s)), ref::pseudo(%d), "pseudoscalar");' % (n, s.cpp, n))
            p.emit("ga::unit_pseudoscalar_t<%d> u; ga::scaled_pseudoscalar_t<double, %d> v; *v.values().begin() = x;" % (n, n))
            p.emit('cx.eq(vt::D(%d, u), ref::pseudo(%d), "unit pseudoscalar type");' % (n, n))
            p.emit('cx.eq(vt::D(%d, v), x * ref::pseudo(%d), "scaled pseudoscalar type");' % (n, n))
            text = "pseudoscalars"
        else:
            # The helper types store one coefficient for every basis blade of the grades they name, each exactly once.
            n = min(n, 6)
            lo = rng.randint(0, n)
            hi = rng.choice([lo, min(n, lo + 1), n])
            if rng.random() < .3 and lo == 1:
                hi = 1
            if n == 6 and hi - lo > 1:
                hi = lo + 1
            ty = "ga::full_multivector_t<double,%d,%d,%d>" % (n, lo, hi) if lo != hi or rng.random() < .3 else "ga::full_kvector_t<double,%d,%d>" % (n, lo)
            if lo == hi == 1 and rng.random() < .6:
                ty = "ga::full_vector_t<double,%d>" % n
            if (lo, hi) == (0, n) and rng.random() < .6:
                ty = "ga::full_multivector_t<double,%d>" % n
            p.emit("%s m; int k = 0; for (auto &v : m.values()) v = ++k;" % ty)
            p.emit("std::vector<int> seen(%d, 0); int count = 0; long double sum = 0;" % (1 << n))
            p.emit('ga::for_each_component(m, [&](auto b, auto v, auto, auto, bool &) { if (b < %d) seen[std::size_t(b)] += 1; ++count; sum += v; });' % (1 << n))
            p.emit("int want = 0; bool ok = true;")
            p.emit("for (unsigned b = 0; b < %d; ++b) { bool const in = __builtin_popcount(b) >= %d && __builtin_popcount(b) <= %d; want += in; ok = ok && seen[b] == int(in); }" % (1 << n, lo, hi))
            p.emit('cx.require(ok && count == want && k == want, "the components of the helper type", std::to_string(count) + " for " + std::to_string(want));')
            p.emit('cx.eqs(sum, want * (want + 1) / 2.0L, "sum of the coefficients");')
            text = ty
        return finish(p, "%s: %s" % (s.name, text), .5)

    def many():
        """Spaces of many dimensions: basis vectors up to the 63rd, vectors of up to thirty coordinates."""
        p = Program(euclidean(1, ns=False))
        nd = rng.choice([63, 64 - rng.randint(1, 31), rng.randint(20, 40)])
        what = rng.choice(["e", "e", "vector", "helpers"])
        eq = lambda got, want, label: p.emit('wide::eq(cx, wide::value(%s), %s, "%s");' % (got, want, label))
        if what == "e":
            k = rng.choice([nd, rng.randint(1, nd), min(nd, rng.choice([31, 32, 33]))])
            ty = rng.choice(["long", "int", "unsigned", "ga::index_t", "short"])
            p.emit('long const i = cx.draw(1, %d); double const x = cx.numnz(); cx.input("i", double(i)); cx.input("x", x);' % nd)
            eq("ga::e(%s(i))" % ty, "wide::MV().add(1ull << (i - 1), 1)", "e(i)")
            eq("x * ga::e(%s(i))" % ty, "wide::MV().add(1ull << (i - 1), x)", "x e(i)")
            eq("ga::e(ga::c<%d>)" % k, "wide::MV().add(%dull, 1)" % (1 << (k - 1)), "e(c<%d>)" % k)
            eq("x * ga::e(ga::c<%d>) + ga::c<2>" % k, "wide::MV().add(%dull, x).add(0, 2)" % (1 << (k - 1)), "x e(c<%d>) + 2" % k)
            p.emit("ga::scaled_basis_vector_t<double> b; *b.values().begin() = x; *b.bitsets().begin() = ga::bitset_t(1) << (i - 1); ga::scaled_constant_basis_vector_t<double, %d> d; *d.values().begin() = x;" % k)
            eq("b", "wide::MV().add(1ull << (i - 1), x)", "basis vector type")
            eq("d", "wide::MV().add(%dull, x)" % (1 << (k - 1)), "constant basis vector type")
            p.emit("long at = 0, count = 0; ga::for_each_basis_vector(ga::e(%s(i)), [&](ga::index_t j, bool &) { at = long(j); ++count; }); cx.require(count == 1 && at == i, \"the basis vector visited\");" % ty)
            text = "e(%s) up to %d, e(c<%d>)" % (ty, nd, k)
        elif what == "helpers":
            P = rng.randint(0, nd)
            ix = sorted(rng.sample(range(1, nd + 1), rng.randint(1, min(nd, 6))))
            ps = "ga::pseudoscalar(ga::signed_metric_space<%d,%d,0>())" % (P, nd - P)
            p.emit('double const x = cx.numnz(); cx.input("x", x); ga::unit_pseudoscalar_t<%d> u; ga::scaled_pseudoscalar_t<double, %d> v; *v.values().begin() = x;' % (nd, nd))
            p.emit("ga::scaled_constant_basis_blade_t<double, %s> w; *w.values().begin() = x; ga::unit_constant_basis_blade_t<%s> t;" % (", ".join(map(str, ix)), ", ".join(map(str, ix))))
            I, m = (1 << nd) - 1, sum(1 << (i - 1) for i in ix)
            eq(ps, "wide::MV().add(%dull, 1)" % I, "pseudoscalar")
            eq("u", "wide::MV().add(%dull, 1)" % I, "unit pseudoscalar type")
            eq("v", "wide::MV().add(%dull, x)" % I, "scaled pseudoscalar type")
            eq("w", "wide::MV().add(%dull, x)" % m, "scaled basis blade type")
            eq("t", "wide::MV().add(%dull, 1)" % m, "unit basis blade type")
            text = "pseudoscalars and blade e%s of %d dimensions" % (".".join(map(str, ix)), nd)
        else:
            nd = rng.randint(10, 30)
            P = rng.randint(0, nd)
            ty = rng.choice(["double", "float", "long"])
            p.emit("std::vector<%s> const q = [&] { std::vector<%s> r; for (int i = 0; i < %d; ++i) r.push_back(%s(cx.integer())); return r; }(); wide::MV r; for (int i = 0; i < %d; ++i) r = r.add(1ull << i, q[std::size_t(i)]);" % (ty, ty, nd, ty, nd))
            S = "ga::signed_metric_space<%d,%d,0>()" % (P, nd - P)
            eq("ga::vector(%s, q.begin(), q.end())" % S, "r", "vector from iterators")
            p.emit("ga::full_vector_t<%s, %d> f; { auto a = q.begin(); for (auto &v : f.values()) v = *a++; cx.require(a == q.end(), \"coefficients of a vector\"); }" % (ty, nd))
            eq("f", "r", "full vector type")
            ks = [rng.randint(-3, 3) if rng.random() < .3 else None for _ in range(nd)]
            eq("ga::vector(%s, %s)" % (S, ", ".join("ga::c<%d>" % k if k is not None else "q[%d]" % i for i, k in enumerate(ks))), "[&] { wide::MV r; %s return r; }()" % " ".join("r = r.add(%dull, %s);" % (1 << i, k if k is not None else "q[%d]" % i) for i, k in enumerate(ks)), "vector of constants and numbers")
            text = "vectors of %d coordinates of type %s, constants at %s" % (nd, ty, [i + 1 for i, k in enumerate(ks) if k is not None])
        return finish(p, "%d dimensions: %s" % (nd, text), .7, pre='#include "wide.hpp"\n')
    return unique(vectors, int(120 * scale)) + unique(iterators, int(60 * scale)) + names() + unique(basis, int(40 * scale)) + unique(many, int(24 * scale))


# ---------------------------------------------------------------------------------------------------------------------
# Copies and conversions.

def stored_type(ty, support, n, rng=None):
    """A type that stores one coefficient for each of the given basis blades."""
    if rng is not None:
        gs = {popcount(b) for b in support}
        if len(support) == sum(1 for b in range(1 << n) if popcount(b) in gs):
            lo, hi = min(gs), max(gs)
            if lo == hi:
                return "ga::full_kvector_t<%s,%d,%d>" % (ty, n, lo)
            if len(gs) == hi - lo + 1:
                return "ga::full_multivector_t<%s,%d,%d,%d>" % (ty, n, lo, hi)
    t = ["ga::scaled_constant_basis_blade_t<%s>()" % ",".join([ty] + [str(i) for i in bits(b)]) for b in support]
    return "std::decay_t<decltype(%s)>" % " + ".join(t)


def random_support(rng, n, limit):
    w = rng.random()
    if w < .3:
        g = rng.randint(0, n)
        s = [b for b in range(1 << n) if popcount(b) == g]
    elif w < .45:
        lo = rng.randint(0, n - 1)
        s = [b for b in range(1 << n) if lo <= popcount(b) <= lo + 1]
    else:
        s = rng.sample(range(1 << n), rng.randint(1, min(1 << n, limit)))
    return sorted(s) if len(s) <= limit else sorted(rng.sample(s, limit))


@prop("P20", assumptions=["coefficients of native number types", "components that the destination type lacks have run-time coefficients (with others the library refuses to compile)"])
def p20(rng, scale):
    CT = ["double", "double", "double", "float", "long double"]

    def source(p, rng, support, ty, const=True, consts=.3):
        """A multivector with the given components; the model's terms."""
        v = p.fresh("a")
        if len(support) > 1 and rng.random() < .3:
            p.emit("auto %s = vt::made_of%s<%s >(cx);" % (v, "i" if ty == "int" else "", stored_type(ty, support, p.n, rng)))
            r = p.fresh("r")
            p.emit("ref::MV const %s = vt::D(%d, %s);" % (r, p.n, v))
            text = "%s{%s}" % (ty, ",".join(map(bname, support)))
            p.emit('cx.input("%s", %s);' % (v, r))
            return v, r, text, set()
        es, rs, ts, cs = [], [], [], set()
        order = list(support)
        rng.shuffle(order)
        for b in order:
            k = rng.choice("cqu") if rng.random() < consts else "r"
            if k == "q" and ty == "int":
                k = "c"
            if k == "r":
                x = p.num("integer" if ty == "int" else "num")
                es.append("(%s)(%s) * %s" % (ty, x, bb(b)))
                rs.append((b, x))
                ts.append("r<%s>" % bname(b))
                continue
            cs.add(b)
            if k == "c":
                w = rng.choice([-3, -2, -1, 2, 3])
                es.append("ga::c<%d> * %s" % (w, bb(b)))
                rs.append((b, str(w)))
                ts.append("%d<%s>" % (w, bname(b)))
            elif k == "q":
                a, c = fraction(rng)
                es.append("(ga::c<%d> / ga::c<%d>) * %s" % (a, c, bb(b)))
                rs.append((b, "%d.0L/%d" % (a, c)))
                ts.append("%d/%d<%s>" % (a, c, bname(b)))
            else:
                es.append(bb(b))
                rs.append((b, "1"))
                ts.append("<%s>" % bname(b))
        p.emit("auto const %s = %s;" % (v, " + ".join(es)))
        r = p.fresh("r")
        p.emit("ref::MV const %s = %s;" % (r, p.mv(rs)))
        p.emit('cx.input("%s", %s);' % (v, r))
        return v, r, "%s: %s" % (ty, " + ".join(ts)), cs

    def make(p, rng, R, v, how, tol=""):
        """Emits a copy of v to a new g of type R."""
        if how in ("trivial_copy", "checked_trivial_copy"):
            p.emit("R g; for (auto &x : g.values()) x = 77;")
            p.emit("ga::%s(%s, g%s);" % (how, v, tol))
        elif how == "constructor":
            p.emit("R g(std::as_const(%s));" % v)
        elif how == "initialisation":
            p.emit("R g = std::as_const(%s);" % v)
        elif how == "assignment":
            p.emit("R g; for (auto &x : g.values()) x = 77;")
            p.emit("g = std::as_const(%s);" % v)
        elif how == "temporary":
            p.emit("R g = [&] { auto copy = %s; return copy; }();" % v)
        elif how == "call":
            p.emit("auto const id = [](R const &x) { return x; }; R g = id(std::as_const(%s));" % v)

    HOWS = ["trivial_copy", "trivial_copy", "checked_trivial_copy", "constructor", "initialisation", "assignment", "temporary", "call"]

    def wider():
        n = rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 7])
        p = Program(euclidean(n))
        support = random_support(rng, n, 8)
        ty = rng.choice(CT + ["int"])
        rt = rng.choice(CT + (["int"] if ty == "int" else []))
        v, r, text, cs = source(p, rng, support, ty)
        if rt == "int" and cs and rng.random() < .5:
            return None
        extra = set(support) | set(random_support(rng, n, 8)) if rng.random() < .8 else set(support)
        if n <= 4 and rng.random() < .2:
            extra = set(range(1 << n))
        R = stored_type(rt, sorted(extra), n, rng)
        how = rng.choice(HOWS)
        tol = rng.choice(["", "", ", 0.5", ", ga::scalar(1e-3)", ", ga::c<0>"]) if how == "checked_trivial_copy" else ""
        p.emit("typedef %s R;" % R)
        make(p, rng, R, v, how, tol)
        p.emit('cx.eq(vt::D(%d, g), %s, "%s", %s);' % (n, r, how, "1e-6" if rt == "float" else "VT_REL"))
        p.emit('cx.eq(%s, %s, "the source afterwards", 1e-6);' % (dense(n, v, bool(cs)), r))
        if ty == rt and not cs:
            # The copy has a life of its own.
            p.emit("for (auto &x : g.values()) x += 1;")
            p.emit('cx.eq(vt::D(%d, %s), %s, "the source after its copy changed");' % (n, v, r))
        return finish(p, "%d dimensions: %s of %s to %s{%s}" % (n, how + tol, text, rt, ",".join(map(bname, sorted(extra)))), .3 + .03 * len(extra), cases=120)

    def narrower():
        """Only a checked copy may leave components out."""
        n = rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5])
        p = Program(euclidean(n))
        support = random_support(rng, n, 7)
        kept = [b for b in support if rng.random() < .6]
        out = [b for b in support if b not in kept]
        target = sorted(set(kept) | ({b for b in random_support(rng, n, 4)} - set(out)))
        if not out or not target:
            return None
        ty, rt = rng.choice(["double", "double", "float", "long double"]), rng.choice(CT)
        how = rng.choice(["checked_trivial_copy"] * 3 + ["constructor", "initialisation", "assignment", "temporary"])
        tol, t = rng.choice([(", 0.5", .5), (", ga::scalar(0.25)", .25), (", ga::c<1>", 1.0), (", ga::c<0>", 0.0), (", 1e-3f", 1e-3), ("", None)]) if how == "checked_trivial_copy" else ("", None)
        if t is None:
            t = 0.0 if ty == "long double" else 1e-8
        if "f" in tol:
            ty = "float" if ty == "long double" else ty
        p.emit("long double const t = %rL; bool fails = false;" % t)
        p.emit("auto const part = [&] { long const k = cx.draw(0, 3); return k == 0 ? 0.0 : k == 1 ? double(cx.flip() ? t / 2 : -t / 2) : k == 2 ? 0.0 : double(t * 2 + (t == 0 || cx.flip() ? 0.125 : 0)) * (cx.flip() ? 1 : -1); };")
        es, rs = [], []
        order = list(support)
        rng.shuffle(order)
        for b in order:
            x = p.fresh("x")
            if b in out:
                p.emit("double const %s = part(); fails = fails || std::fabs((long double)%s) > t;" % (x, x))
            else:
                p.emit("double const %s = cx.num();" % x)
                rs.append((b, x))
            p.emit('cx.input("%s of %s", %s);' % (bname(b), "left out" if b in out else "kept", x))
            es.append("(%s)(%s) * %s" % (ty, x, bb(b)))
        p.emit("auto const a = %s;" % " + ".join(es))
        p.emit("typedef %s R;" % stored_type(rt, target, n, rng))
        p.emit("bool thrown = false;")
        p.emit("try {")
        make(p, rng, None, "a", how, tol)
        p.emit('cx.eq(vt::D(%d, g), %s, "%s", 1e-6);' % (n, p.mv(rs), how))
        p.emit("} catch (ga::bad_checked_copy_exception const &) { thrown = true; }")
        p.emit("cx.nontrivial();")
        p.emit('cx.require(thrown == fails, fails ? "a copy that loses a component succeeded" : "a copy that loses nothing failed");')
        return finish(p, "%d dimensions: %s of %s{%s} to %s{%s}" % (n, how + tol, ty, ",".join(map(bname, order)), rt, ",".join(map(bname, target))), .4, cases=160)

    def runtime():
        n = rng.choice([2, 3, 3, 4, 5, 8])
        p = Program(euclidean(n))
        lo = rng.randint(0, n)
        hi = rng.randint(max(lo, 1), n)
        tlo, thi = rng.randint(0, lo), rng.randint(hi, n)
        a = p.operand(rng, rng.choice(["dyn_u", "dyn_s", "dyn_s"]), grades=range(lo, hi + 1))
        ty = rng.choice(["double", "double", "float", "long double"])
        if tlo == thi == 0 or tlo == thi == n:
            return None
        how = rng.choice(["trivial_copy", "checked_trivial_copy", "constructor", "assignment"])
        p.emit("typedef ga::scaled_basis_blade_t<%s,%d,%d> R;" % (ty, tlo, thi))
        make(p, rng, None, a.g, how)
        if "unit" in a.text and rng.random() < .5:
            p.emit("ga::unit_basis_blade_t<%d,%d> h; ga::trivial_copy(%s, h);" % (tlo, thi, a.g))
            p.emit('cx.eq(vt::D(%d, h), %s, "unit blade");' % (n, a.r))
        p.emit('cx.eq(vt::D(%d, g), %s, "%s");' % (n, a.r, how))
        p.emit("for (auto &x : g.values()) x += 1; *g.bitsets().begin() = 0;")
        p.emit('cx.eq(vt::D(%d, %s), %s, "the source afterwards");' % (n, a.g, a.r))
        return finish(p, "%d dimensions: %s of %s to %s scaled blade<%d..%d>" % (n, how, a.text, ty, tlo, thi), .4)

    def cleared():
        """Copies of nothing clear what the result held."""
        n = rng.choice([1, 2, 3, 4])
        p = Program(euclidean(n))
        ty = rng.choice(["double", "float", "long double"])
        dyn = rng.random() < .5
        if dyn:
            lo, hi = sorted((rng.randint(0, n), rng.randint(0, n)))
            if lo == hi == 0 or lo == hi == n:
                return None
            R = "ga::scaled_basis_blade_t<%s,%d,%d>" % (ty, lo, hi)
        else:
            R = stored_type(ty, random_support(rng, n, 6), n, rng)
        i = rng.randint(1, n)
        zero = rng.choice(["ga::c<0>", "ga::op(ga::e(ga::c<%d>), ga::e(ga::c<%d>), %s)" % (i, i, p.space.cpp), "ga::take_grade(x * ga::e(ga::c<%d>), ga::c<0>)" % i, "ga::take_grade(x, ga::c<1>)", "ga::take_grade(x * ga::e(ga::c<%d>) + 1.0, ga::c<%d>)" % (i, n + 1), "(ga::e(ga::c<%d>) - ga::e(ga::c<%d>))" % (i, i), "ga::lcont(x * ga::e(ga::c<%d>), ga::scalar(+x), %s)" % (i, p.space.cpp), "ga::c<0> * (x * ga::e(ga::c<%d>) + 1.0)" % i])
        how = rng.choice(["trivial_copy", "checked_trivial_copy", "constructor", "assignment"])
        p.emit('double const x = cx.num(); cx.input("x", x); typedef %s R; R g; for (auto &v : g.values()) v = cx.numnz();' % R)
        if dyn:
            p.emit("{ std::vector<unsigned> ok; for (unsigned b = 0; b < %du; ++b) if (__builtin_popcount(b) >= %d && __builtin_popcount(b) <= %d) ok.push_back(b); *g.bitsets().begin() = ga::bitset_t(ok[cx.draw(0, long(ok.size()) - 1)]); }" % (1 << n, lo, hi))
        p.emit("ref::MV const before = vt::D(%d, g); if (before.maxabs() != 0) cx.nontrivial(); auto const z = %s;" % (n, zero))
        p.emit({"trivial_copy": "ga::trivial_copy(z, g);", "checked_trivial_copy": "ga::checked_trivial_copy(z, g);", "constructor": "g = R(z);", "assignment": "g = z;"}[how])
        p.emit('cx.eq(vt::D(%d, g), ref::MV(%d), "%s of nothing");' % (n, n, how))
        p.emit('for (auto const &v : g.values()) cx.require(v == 0, "a coefficient was left");')
        return finish(p, "%d dimensions: %s of %s to %s" % (n, how, zero.replace("ga::", ""), R.replace("ga::", "")), .3, cases=60)

    def zeroed():
        """A checked copy of a run-time blade that vanishes, to components that lack it."""
        n = rng.choice([2, 3, 4])
        p = Program(euclidean(n))
        a = p.operand(rng, "dyn_s", how="spnum")
        b = rng.choice(range(1 << n))
        ty = rng.choice(["double", "float"])
        p.emit("ga::scaled_constant_basis_blade_t<%s%s> g; *g.values().begin() = 77;" % (ty, "".join(",%d" % i for i in bits(b))))
        p.emit("bool thrown = false; try { ga::checked_trivial_copy(%s, g); cx.eq(vt::D(%d, g), ref::MV(%d), \"copy of nothing\"); } catch (ga::bad_checked_copy_exception const &) { thrown = true; }" % (a.g, n, n))
        p.emit('cx.nontrivial(); cx.require(thrown == (%s.maxabs() != 0), "a run-time blade is left out only if it vanishes");' % a.r)
        return finish(p, "%d dimensions: checked_trivial_copy of %s to %s<%s>" % (n, a.text, ty, bname(b)), .4)

    def native():
        n = rng.choice([1, 2, 3, 4])
        p = Program(euclidean(n))
        support = sorted({0} | set(random_support(rng, n, 5)))
        ty = rng.choice(CT)
        p.emit("double const x = cx.num(); typedef %s R; R g; for (auto &v : g.values()) v = 77;" % stored_type(ty, support, n, rng))
        what = rng.choice(["double", "int", "float", "const", "scalar", "assign"])
        tol = rng.choice(["", ", 0.5", ", ga::c<0>"])
        f = rng.choice(["trivial_copy", "checked_trivial_copy"])
        p.emit('cx.input("x", x);')
        w = "x"
        if what == "int":
            p.emit("int const i = int(x);")
            w = "i"
        src = {"double": "x", "int": "i", "float": "float(x)", "const": "ga::c<-3>", "scalar": "ga::scalar(+x)", "assign": None}[what]
        if what == "const":
            w = "-3"
        if what == "assign":
            p.emit("g = ga::scalar(+x);")
            f = "assignment"
        else:
            p.emit("ga::%s(%s, g%s);" % (f, src, tol if f[0] == "c" else ""))
        p.emit('cx.eq(vt::D(%d, g), ref::scalar(%d, %s), "%s");' % (n, n, w, f))
        return finish(p, "%d dimensions: %s of native %s to %s{%s}%s" % (n, f, what, ty, ",".join(map(bname, support)), tol), .3, cases=60)

    def to_native():
        """Scalar results convert to native numbers."""
        p, a, b = two(rng, lambda r: orth_space(r, 4), 16, kinds=["scalar", "rterm", "qterm", "sum", "cterm", "vec", "kvec", "mixsum"])
        ty = rng.choice(["double", "double", "float", "long double"])
        p.emit("static ref::Metric const M = %s;" % p.space.ref)
        p.emit("auto const s = ga::sp(%s, %s, %s);" % (a.g, b.g, p.space.cpp))
        p.emit("ref::MV const w = ref::sp(M, %s, %s);" % (a.r, b.r))
        how = rng.choice(["%s const x(s);", "%s const x = s;", "%s x = 77; x = s;", "%s const x = [](double y) { return y; }(s);"])
        rat = a.kind in RATIONAL or b.kind in RATIONAL
        if rat:
            p.emit("auto const s1 = 1.0 * s;")
            how = how.replace("s;", "s1;").replace("(s)", "(s1)")
        p.emit(how % ty)
        p.emit('cx.eqs(x, w[0], "conversion to a native number", 1e-6, w.maxabs() + ref::n1(%s) * ref::n1(%s));' % (a.r, b.r))
        return finish(p, "%s: %s of sp(%s, %s)" % (p.space.name, how % ty, a.text, b.text), .5)

    def history():
        """Sequences of copies, moves, swaps and changes of several values of one type."""
        n = rng.choice([1, 2, 3, 4])
        p = Program(euclidean(n))
        support = random_support(rng, n, 8)
        dyn = rng.random() < .3
        R = "ga::scaled_basis_blade_t<double,%d,%d>" % (0, n) if dyn else stored_type("double", support, n, rng)
        k = rng.randint(2, 4)
        p.emit("typedef %s R; std::vector<R> v(%d); std::vector<ref::MV> m(%d, ref::MV(%d));" % (R, k, k, n))
        p.emit("long const steps = cx.draw(1, 12);")
        p.emit("for (long i = 0; i < steps; ++i) {")
        p.emit("  long const op = cx.draw(0, 6), x = cx.draw(0, %d), y = cx.draw(0, %d);" % (k - 1, k - 1))
        p.emit("  if (op == 0) { for (auto &c : v[x].values()) c = cx.num(); %s m[x] = vt::D(%d, v[x]); }" % ("*v[x].bitsets().begin() = ga::bitset_t(cx.draw(0, %d));" % ((1 << n) - 1) if dyn else "", n))
        p.emit("  else if (op == 1) { v[x] = v[y]; m[x] = m[y]; }")
        p.emit("  else if (op == 2) { R t(std::as_const(v[y])); v[x] = std::move(t); m[x] = m[y]; }")
        p.emit("  else if (op == 3) { std::swap(v[x], v[y]); std::swap(m[x], m[y]); }")
        p.emit("  else if (op == 4) { ga::trivial_copy(v[y], v[x]); m[x] = m[y]; }")
        p.emit("  else if (op == 5) { ga::checked_trivial_copy(v[y], v[x]); m[x] = m[y]; }")
        p.emit("  else { v.push_back(v[x]); v.erase(v.begin() + y); m.push_back(m[x]); m.erase(m.begin() + y); }")
        p.emit("  for (int j = 0; j < %d; ++j) cx.eq(vt::D(%d, v[j]), m[j], \"after a step\");" % (k, n))
        p.emit("}")
        return finish(p, "%d dimensions: history of %d values of %s" % (n, k, "runtime blades" if dyn else "{%s}" % ",".join(map(bname, support))), .5, cases=150)
    return unique(wider, int(110 * scale)) + unique(narrower, int(70 * scale)) + unique(runtime, int(30 * scale)) + unique(cleared, int(20 * scale)) + unique(zeroed, int(8 * scale)) + unique(native, int(24 * scale)) + unique(to_native, int(24 * scale)) + unique(history, int(14 * scale))


# ---------------------------------------------------------------------------------------------------------------------
# Text output and iteration.

@prop("P21", assumptions=["streams that do not throw; finite coefficients", "names of basis vectors that are identifiers"])
def p21(rng, scale):
    PRE = '#include "parse.hpp"\n#include <sstream>\n#include <iomanip>\n'

    def names(s):
        m = s.ns[-1]
        d = s.n - {"e": 0, "h": 1, "p": 1, "m": 2, "c": 2}[m]
        return ["e%d" % (i + 1) for i in range(d)] + {"e": [], "h": ["ep"], "p": ["e0"], "m": ["ep", "em"], "c": ["no", "ni"]}[m]

    def value(p, rng):
        """A multivector to write; (expression, model, text, whether its constants need care)."""
        s, n = p.space, p.n
        w = rng.random()
        if w < .6:
            kinds = [k for k in (KINDS_STATIC + ["cterm", "qterm", "csum", "mixsum"]) if k != "native"] + KINDS_DYN
            if n > 5:
                kinds = [k for k in kinds if k not in ("kvec", "mv", "fmv")]
            a = p.operand(rng, rng.choice(kinds))
            return a.g, a.r, a.text
        if w < .72:
            # Constants that only a function gives.
            es, rs = [], []
            for b in rng.sample(range(1 << n), min(1 << n, rng.randint(1, 3))):
                e, r = rng.choice([("ga::sqrt(ga::c<2>)", "std::sqrt(2.0L)"), ("ga::sqrt(ga::c<6>)", "std::sqrt(6.0L)"), ("ga::pow(ga::c<3>, ga::c<-2>)", "1 / 9.0L"), ("ga::cbrt(ga::c<5>)", "std::cbrt(5.0L)"), ("ga::exp(ga::c<1>)", "std::exp(1.0L)"), ("ga::log(ga::c<3>)", "std::log(3.0L)"), ("ga::cos(ga::c<1>)", "std::cos(1.0L)"), ("ga::sin(ga::c<1>)", "std::sin(1.0L)"), ("ga::tan(ga::c<1>)", "std::tan(1.0L)"), ("ga::cosh(ga::c<1>)", "std::cosh(1.0L)"), ("ga::sinh(ga::c<1>)", "std::sinh(1.0L)"), ("ga::tanh(ga::c<1>)", "std::tanh(1.0L)"), ("ga::abs(ga::cos(ga::c<2>))", "std::fabs(std::cos(2.0L))"), ("(ga::c<1> / ga::c<3>)", "(1 / 3.0L)"), ("(ga::c<-7> / ga::c<4>)", "(-7 / 4.0L)")])
                f, q = rng.choice([("%s", "%s"), ("(ga::c<-3> * %s)", "(-3 * %s)"), ("(%s + ga::c<1>)", "(%s + 1)"), ("(ga::c<2> * (%s + ga::c<1>))", "(2 * (%s + 1))"), ("(ga::c<1> - %s)", "(1 - %s)"), ("((ga::c<1> + %s) * (ga::c<2> + ga::sqrt(ga::c<7>)))", "((1 + %s) * (2 + std::sqrt(7.0L)))"), ("ga::exp(%s)", "std::exp(%s)")])
                es.append("%s * %s" % (f % e, bb(b)))
                rs.append((b, q % r))
            p.emit("auto const v = %s;" % " + ".join(es))
            return "v", p.mv(rs), " + ".join(es).replace("ga::", "")
        if w < .86:
            # The result of an operation.
            a = p.operand(rng, rng.choice(["cterm", "qterm", "rterm", "sum", "csum", "mixsum", "vec"]))
            b = p.operand(rng, rng.choice(["cterm", "qterm", "rterm", "sum", "csum", "mixsum", "vec"]))
            if a.size * b.size > 20:
                return None
            o = rng.choice(["op", "gp", "lcont", "add"])
            p.emit("static ref::Metric const M = %s;" % s.ref)
            if o == "add":
                return "(%s + %s)" % (a.g, b.g), "(%s + %s)" % (a.r, b.r), "%s + %s" % (a.text, b.text)
            return "ga::%s(%s, %s, %s)" % (o, a.g, b.g, s.cpp), "ref::%s(%s%s, %s)" % (o, "" if o == "op" else "M, ", a.r, b.r), "%s(%s, %s)" % (o, a.text, b.text)
        a = p.operand(rng, rng.choice(["rterm", "sum", "vec", "mixsum"]))
        g = in_lazy(p, [a.g], lambda x: "%s + ga::c<2> * %s" % (x, x))
        return "(%s)" % g, "3 * %s" % a.r, "lazy 3 * (%s)" % a.text

    def written():
        s = ns_space(rng) if rng.random() < .6 else any_space(rng, 9)
        p = Program(s)
        v = value(p, rng)
        if v is None:
            return None
        g, r, text = v
        custom = not s.ns or rng.random() < .35
        if custom:
            ns = rng.choice([["x", "y", "z", "u", "v", "w", "s", "t", "q"], ["g%d" % i for i in range(9)], ["a", "ab", "abb", "b", "ba", "bab", "c", "ca", "cab"], ["e_1", "e_2", "e_10", "e_20", "E", "F1", "F", "F11", "no"]])[:s.n]
            extra = rng.choice([0, 0, 1]) if s.n < 9 else 0
            p.emit("std::array<std::string, %d> const names{%s};" % (s.n + extra, ", ".join('"%s"' % x for x in ns + ["spare"] * extra)))
            write = lambda os, x: "ga::write(%s, %s, names);" % (os, x)
        else:
            ns = names(s)
            write = lambda os, x: "{ using namespace %s; %s << %s; }" % (s.ns, os, x) if rng.random() < .5 else "%s::operator<<(%s, %s);" % (s.ns, os, x)
        p.emit("std::vector<std::string> const known{%s};" % ", ".join('"%s"' % x for x in ns))
        p.emit("auto const g = %s; ref::MV const r = %s;" % (g, r))
        k = rng.choice([17, 17, 17, 9, 0])
        p.emit("std::ostringstream os; %s" % ("os << std::setprecision(%d)%s;" % (k, rng.choice(["", "", " << std::scientific"])) if k else ""))
        p.emit(write("os", "g"))
        p.emit("std::string const text = os.str();")
        p.emit('cx.require(os.good() && !text.empty(), "the stream afterwards");')
        p.emit('cx.nontrivial(); cx.eq(parse::read(%d, text, known), r, "the written text", %s);' % (s.n, {17: "VT_REL", 9: "1e-7", 0: "1e-4"}[k]))
        if rng.random() < .5:
            # Again, to a stream in use.
            p.emit('os << " | "; %s os << "!"; cx.eqstr(os.str(), text + " | " + text + "!", "written twice");' % write("os", "g"))
        return finish(p, "%s: text of %s%s" % (s.name, text, ", names " + " ".join(ns) if custom else ""), .5, cases=80, pre=PRE)

    def visited():
        s = any_space(rng, 9)
        p = Program(s)
        n = s.n
        kinds = [k for k in KINDS_STATIC if k != "native"] + ["cterm", "qterm", "csum", "mixsum"] + KINDS_DYN
        if n > 5:
            kinds = [k for k in kinds if k not in ("kvec", "mv", "fmv")]
        a = p.operand(rng, rng.choice(kinds))
        dyn = "runtime" in a.text
        p.emit("struct Seen { ga::bitset_t b; long double v; int bs, vs; bool keep; };")
        p.emit("std::vector<Seen> all; bool const done = ga::for_each_component(%s, [&](ga::bitset_t const b, auto const &v, ga::entry_source_t const x, ga::entry_source_t const y, bool &keep) { all.push_back({b, (long double)v, int(x), int(y), keep}); });" % a.g)
        p.emit("cx.nontrivial(); ref::MV sum(%d); bool once = true, sources = true; std::size_t stored = 0;" % n)
        p.emit("for (std::size_t i = 0; i < all.size(); ++i) { cx.require((all[i].b >> %d) == 0, \"a component outside the space\"); sum = sum + ref::blade(%d, unsigned(all[i].b), all[i].v); for (std::size_t j = 0; j < i; ++j) once = once && all[j].b != all[i].b; stored += all[i].vs == ga::STORED_RUNTIME_DEFINED_ENTRY; sources = sources && all[i].keep && all[i].bs == ga::%s; }" % (n, n, "STORED_RUNTIME_DEFINED_ENTRY" if dyn else "COMPILE_TIME_DEFINED_ENTRY"))
        p.emit('cx.eq(sum, %s, "sum of the components");' % a.r)
        p.emit('cx.require(once, "a basis blade is visited twice"); cx.require(done, "the visit was not stopped"); cx.require(sources, "the origin of a component");')
        p.emit('cx.require(stored == std::size_t(std::distance(%s.values().begin(), %s.values().end())), "every stored coefficient is visited");' % (a.g, a.g))
        p.emit("std::size_t const at = std::size_t(cx.draw(0, %d)); std::size_t calls = 0; bool const thrown = cx.flip(), falls = at < all.size();" % max(a.size, 1))
        p.emit("struct Stop { std::size_t at; };")
        p.emit("bool caught = false, ended = true, same = true;")
        p.emit("try { ended = ga::for_each_component(%s, [&](ga::bitset_t const b, auto const &v, ga::entry_source_t, ga::entry_source_t, bool &keep) { same = same && calls < all.size() && all[calls].b == b && all[calls].v == (long double)v; if (calls == at) { if (thrown) throw Stop{calls}; keep = false; } ++calls; }); } catch (Stop const &e) { caught = e.at == at; }" % a.g)
        p.emit('cx.require(same, "visited again in the same order");')
        p.emit('cx.require(caught == (thrown && falls), "the exception of the visitor");')
        p.emit('if (!caught) { cx.require(ended == !falls, "the result of the visit"); cx.require(calls == (falls ? at + 1 : all.size()), "components visited until it was stopped"); }')
        return finish(p, "%s: visit of %s" % (s.name, a.text), .5, cases=100)

    def vectors():
        kind = rng.choice(["bitset", "bitset", "constant", "dynamic"])
        p = Program(euclidean(rng.choice([3, 5, 9])))
        if kind == "bitset":
            p.emit("std::vector<long> want; ga::bitset_t b = 0; long const k = cx.draw(0, 8); for (long i = 0; i < k; ++i) b |= ga::bitset_t(1) << cx.draw(0, 62);")
            arg = "b"
        elif kind == "constant":
            m = sorted(rng.sample(range(1, 63), rng.randint(0, 6)))
            w = rng.choice([("auto const x = BB<%s>();", 0), ("auto const x = ga::c<-3> * BB<%s>();", 0), ("auto const x = cx.num() * BB<%s>();", 0)])[0]
            p.emit("std::vector<long> want; ga::bitset_t const b = %s;" % (" | ".join("ga::bitset_t(1) << %d" % (i - 1) for i in m) or "0"))
            p.emit(w % ",".join(map(str, m)))
            arg = "x"
        else:
            a = p.operand(rng, rng.choice(KINDS_DYN))
            p.emit("std::vector<long> want; ga::bitset_t const b = *%s.bitsets().begin();" % a.g)
            arg = a.g
        p.emit("for (long i = 0; i < 64; ++i) if (b >> i & 1) want.push_back(i + 1);")
        p.emit('cx.input("bitset", double(b)); cx.nontrivial();')
        p.emit("std::vector<long> seen; bool const done = ga::for_each_basis_vector(%s, [&](ga::index_t const i, bool &keep) { seen.push_back(keep ? long(i) : -1); });" % arg)
        p.emit('cx.require(done && seen == want, "basis vectors of the blade");')
        p.emit("std::size_t const at = std::size_t(cx.draw(0, 6)), all = want.size(); std::size_t calls = 0; bool const thrown = cx.flip(), falls = at < all; struct Stop {}; bool caught = false, ended = true;")
        p.emit("try { ended = ga::for_each_basis_vector(%s, [&](ga::index_t const i, bool &keep) { if (i != want[calls]) throw vt::Fail{\"visited in another order\"}; if (calls == at) { if (thrown) throw Stop(); keep = false; } ++calls; }); } catch (Stop const &) { caught = true; }" % arg)
        p.emit('cx.require(caught == (thrown && falls), "the exception of the visitor");')
        p.emit('if (!caught) { cx.require(ended == (!falls || at + 1 == all ? ended : false), "the result of the visit"); cx.require(calls == (falls ? at + 1 : all), "basis vectors visited until it was stopped"); }')
        return finish(p, "basis vectors of %s" % (kind + (" " + str(m) if kind == "constant" else "")) + ("" if kind == "bitset" else " " + p.lines[1].strip() if kind == "constant" else " " + a.text), .3, cases=150)
    return unique(written, int(150 * scale)) + unique(visited, int(80 * scale)) + unique(vectors, int(20 * scale))
