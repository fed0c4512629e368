"""Generators: every way of writing a call (native numbers, tolerances, pseudoscalars and metrics given or left out)."""
import itertools

from props6 import *
import props

OPS26 = ["gp", "lcont", "rcont", "dot", "hip", "sp", "op", "rp", "cp", "dp", "igp"]
NATIVES = ["double", "double", "int", "float", "long"]


def calls_space(rng, form, nmax=3):
    while True:
        s = ns_space(rng, "ehpmc") if form == "ns" else rng.choice([orth_space, orth_space, gen_space])(rng, nmax)
        if s.n <= nmax and (form != "ns" or s.ns):
            return s


class Arg:
    def __init__(self, g, r, text, size, exact):
        self.g, self.r, self.text, self.size, self.exact = g, r, text, size, exact


def call_arg(p, rng, cls, nonzero=False, native=None):
    """An argument that is a multivector (G), a scalar multivector (S) or a native number (N)."""
    n = p.n
    if cls == "G" and rng.random() < .2:
        v, r = p.fresh("a"), p.fresh("r")
        bs = rng.sample(range(1 << n), min(2, 1 << n))
        xs = [p.fresh("x") for _ in bs]
        for x in xs:
            p.emit("int const %s = int(cx.small());" % x)
        p.emit("auto const %s = %s;" % (v, " + ".join("%s * %s" % (x, bb(b)) if b else "ga::scalar(%s)" % x for x, b in zip(xs, bs))))
        p.emit("ref::MV const %s = %s;" % (r, " + ".join("ref::blade(%d, %d, %s)" % (n, b, x) for x, b in zip(xs, bs))))
        p.emit('cx.input("%s", %s);' % (v, r))
        return Arg(v, r, " + ".join("int*<%s>" % bname(b) for b in bs), len(bs), True)
    if cls == "G":
        k = rng.choice(["sum", "sum", "mixsum", "sbb", "rterm", "vec", "cterm", "cblade"])
        a = p.operand(rng, k, terms=2, how="half") if k in ("sum", "mixsum") else p.operand(rng, k, how="half")
        return Arg(a.g, a.r, a.text, a.size, True)
    x = p.fresh("x")
    ty = native or rng.choice(NATIVES)
    p.emit("double const %s_ = %s;" % (x, ("cx.integernz()" if nonzero else "cx.integer()") if ty in ("int", "long") else ("cx.numnz()" if nonzero else "cx.half()")))
    p.emit('cx.input("%s", %s_);' % (x, x))
    r = "ref::scalar(%d, %s_)" % (n, x)
    if cls == "N":
        p.emit("%s const %s = static_cast<%s>(%s_);" % (ty, x, ty, x))
        return Arg(x, r, "native " + ty, 1, ty != "float")
    w = rng.random()
    if w < .25:
        k = rng.choice([-3, -2, -1, 1, 2, 3])
        return Arg("ga::c<%d>" % k, "ref::scalar(%d, %d)" % (n, k), "c<%d>" % k, 1, True)
    v = p.fresh("a")
    p.emit("auto const %s = ga::scalar(static_cast<%s>(%s_));" % (v, ty, x))
    return Arg(v, r, "scalar " + ty, 1, ty != "float")


def opened(p, form):
    p.emit("{")
    p.emit("[[maybe_unused]] static ref::Metric const M = %s;" % p.space.ref)
    if form == "ns":
        p.emit("using namespace %s;" % p.space.ns)


def called(p, form, f, args):
    """The call with the metric given, left to the namespace, or of a function that needs none."""
    return {"mtr": "ga::%s(%s)" % (f, ", ".join(args + [p.space.cpp])), "ns": "%s(%s)" % (f, ", ".join(args)), "plain": "ga::%s(%s)" % (f, ", ".join(args))}[form]


def compare(p, g, want, label, rel, scale_):
    v = p.fresh("g")
    p.emit("auto const %s = %s;" % (v, g))
    p.emit('cx.eq(vt::DQ<%d>(%s), %s, "%s", %s, %s);' % (p.n, v, want, label, rel, scale_))


def rel_of(*args):
    return "VT_REL" if all(a.exact for a in args) else "1e-5"


def null_space(s):
    return not s.general and all(s.norm(1 << k) == 0 for k in range(s.n))


def product_cell(p, rng, form, o, xs):
    if o == "igp" and xs[1] == "G" and null_space(p.space):
        return None
    a = call_arg(p, rng, xs[0])
    if o == "igp" and xs[1] == "G":
        b = versor(p, rng, True)
        b.exact = True
    else:
        b = call_arg(p, rng, xs[1], o == "igp")
    args = [a.g, b.g]
    if xs == "NN" and o in ("dp",) and rng.random() < .5:
        args = args[:2]
    m = "ref::%s(%s%s, %s)" % (o, "" if o in ("op", "rp") else "M, ", a.r, b.r)
    sc = "%s * ref::n1(ref::inv(M, %s))" % (norm_scale(a.r), b.r) if o == "igp" else norm_scale(a.r, b.r)
    compare(p, called(p, form, o, args), m, "%s(%s, %s), %s" % (o, a.text, b.text, form), rel_of(a, b) if o != "igp" or a.exact and b.exact else "1e-5", sc)
    return a.size * b.size


def tolerance_arg(p, rng, kind, eps):
    """(argument or nothing, model value) of a tolerance of the given kind, of about the magnitude eps."""
    if kind == "none":
        return [], "1e-8L"
    if kind == "const":
        return ["ga::c<1>"], "1.0L"
    t = p.fresh("t")
    p.emit("double const %s = %s;" % (t, eps))
    return [{"number": t, "scalar": "ga::scalar(%s)" % t, "float": "float(%s)" % t}[kind]], "(long double)(float(%s))" % t if kind == "float" else t


EPS = {"none": "1e-8", "const": "1.0", "number": "cx.draw(1, 4) / 8.0", "scalar": "cx.draw(1, 4) / 8.0", "float": "cx.draw(1, 4) / 8.0"}


def near(p, rng, tv, ty="double"):
    """A number below, above or far above a tolerance."""
    x = p.fresh("x")
    p.emit("%s const %s = static_cast<%s>((cx.flip() ? 1 : -1) * (cx.draw(0, 2) == 0 ? %s / 4 : cx.flip() ? %s * 4 : 3.0L));" % (ty, x, ty, tv, tv))
    p.emit('cx.input("%s", double(%s));' % (x, x))
    return x


def near_operand(p, rng, tv, cls, native="double"):
    """A multivector with a sure component of low grade and an unsure one of another grade (or a lone unsure number)."""
    n = p.n
    x = near(p, rng, tv, native if cls == "N" else "double")
    if cls == "N":
        return Arg(x, "ref::scalar(%d, %s)" % (n, x), "native " + native, 1, True)
    if cls == "S":
        return Arg("ga::scalar(%s)" % x, "ref::scalar(%d, %s)" % (n, x), "scalar", 1, True)
    lo, hi = 0, 0
    while popcount(lo) == popcount(hi):
        lo, hi = rng.randrange(1 << n), rng.randrange(1 << n)
    if popcount(lo) > popcount(hi) and rng.random() < .8:
        lo, hi = hi, lo
    sure = p.fresh("x")
    p.emit("double const %s = cx.integernz();" % sure)
    v, r = p.fresh("a"), p.fresh("r")
    if rng.random() < .3 and hi:
        p.emit("auto const %s = %s * %s;" % (v, x, bb(hi)))
        p.emit("ref::MV const %s = ref::blade(%d, %d, %s);" % (r, n, hi, x))
        return Arg(v, r, "unsure*<%s>" % bname(hi), 1, True)
    p.emit("auto const %s = %s;" % (v, " + ".join("%s * %s" % (y, bb(b)) if b else "ga::scalar(%s)" % y for y, b in ((sure, lo), (x, hi)))))
    p.emit("ref::MV const %s = ref::blade(%d, %d, %s) + ref::blade(%d, %d, %s);" % (r, n, lo, sure, n, hi, x))
    p.emit('cx.input("%s", %s);' % (v, r))
    return Arg(v, r, "r*<%s> + unsure*<%s>" % (bname(lo), bname(hi)), 2, True)


def delta_cell(p, rng, form, xs, kind):
    """The delta product with every kind of tolerance."""
    t, tv = tolerance_arg(p, rng, kind, EPS[kind])
    who = rng.choice([i for i, c in enumerate(xs) if c == "G"] or [0, 1])
    native = "int" if kind == "none" and rng.random() < .8 else rng.choice(NATIVES)   # the default tolerance is that of the common type
    a = near_operand(p, rng, tv, xs[who])
    x = p.fresh("x")
    other = xs[1 - who]
    p.emit("double const %s = cx.flip() ? 1 : -1;" % x)
    if other == "G":
        b0 = rng.randrange(1, 1 << p.n)
        b = Arg("(%s * %s)" % (x, bb(b0)), "ref::blade(%d, %d, %s)" % (p.n, b0, x), "unit*<%s>" % bname(b0), 1, True)
    elif other == "S":
        b = Arg("ga::scalar(%s)" % x, "ref::scalar(%d, %s)" % (p.n, x), "unit scalar", 1, True)
    else:
        b = Arg("%s(%s)" % (native, x), "ref::scalar(%d, %s)" % (p.n, x), "native " + native, 1, True)
    if who == 1:
        a, b = b, a
    p.emit("ref::MV const ab = ref::gp(M, %s, %s); int const w = ref::topgrade(ab, %s);" % (a.r, b.r, tv))
    v = p.fresh("g")
    p.emit("auto const %s = %s;" % (v, called(p, form, "dp", [a.g, b.g] + t)))
    p.emit('cx.eq(vt::DQ<%d>(%s), w < 0 ? ref::MV(%d) : ref::take(ab, w), "dp(%s, %s), tolerance %s, %s", 1e-12, %s);' % (p.n, v, p.n, a.text, b.text, kind, form, tv))
    return a.size * b.size


def grade_cell(p, rng, form, o, cls, kind):
    t, tv = tolerance_arg(p, rng, kind, EPS[kind])
    ty = rng.choice(["double", "double", "float"]) if cls == "N" else "double"
    a = near_operand(p, rng, tv, cls, ty)
    g = "ga::%s(%s)" % (o, ", ".join([a.g] + t))
    label = "%s(%s), tolerance %s" % (o, a.text, kind)
    if o == "grade":
        p.emit('{ auto const g = %s; int const w = ref::gradeflag(%s, %s); cx.eqs(ga::grade_t(g), w, "%s"); cx.eqs(g.flag(), w >= 0 ? 0 : w, "flag of %s"); cx.nontrivial(); }' % (g, a.r, tv, label, label))
    elif o == "largest_grade":
        p.emit('{ ga::grade_t const g = %s; int const w = ref::topgrade(%s, %s); cx.eqs(g, w < 0 ? -2 : w, "%s"); cx.nontrivial(); }' % (g, a.r, tv, label))
    elif o == "take_largest_grade":
        p.emit('{ int const w = ref::topgrade(%s, %s); cx.eq(vt::DQ<%d>(%s), w < 0 ? ref::MV(%d) : ref::take(%s, w), "%s", 1e-6); cx.nontrivial(); }' % (a.r, tv, p.n, g, p.n, a.r, label))
    elif o == "is_zero":
        p.emit('cx.require(%s == (ref::topgrade(%s, %s) < 0), "%s"); cx.nontrivial();' % (g, a.r, tv, label))
    return 2


def unary_cell(p, rng, form, o, cls):
    a = call_arg(p, rng, cls, o in ("inv", "unit"))
    if o in ("inv", "unit", "rnorm") and cls == "G" and null_space(p.space):
        return None
    if o in ("inv", "unit", "rnorm") and cls == "G":
        a = versor(p, rng, True)
        a.exact = True
        if o == "rnorm" or o == "unit":
            p.emit("cx.assume(ref::rnorm_sqr(M, %s) > 0.01L);" % a.r)
    n = p.n
    metric = o in ("rnorm_sqr", "rnorm", "inv", "unit")
    k = rng.randrange(0, n + 1)
    w = {"rnorm_sqr": "ref::scalar(%d, ref::rnorm_sqr(M, %s))" % (n, a.r), "rnorm": "ref::scalar(%d, std::sqrt(std::fabs(ref::rnorm_sqr(M, %s))))" % (n, a.r), "inv": "ref::inv(M, %s)" % a.r,
         "unit": "(1 / std::sqrt(std::fabs(ref::rnorm_sqr(M, %s)))) * %s" % (a.r, a.r), "take": "ref::take(%s, %d)" % (a.r, k), "take_rt": "ref::take(%s, %d)" % (a.r, k)}.get(o, "ref::%s(%s)" % (o, a.r))
    if o == "take":
        g = "ga::take_grade(%s, ga::c<%d>)" % (a.g, k)
    elif o == "take_rt":
        p.emit("int const k = cx.draw(0, 0) + %d;" % k)
        g = "ga::take_grade(%s, %s)" % (a.g, rng.choice(["k", "ga::scalar(k)"]))
    else:
        g = called(p, form if metric else "plain", o, [a.g])
    compare(p, g, w, "%s(%s), %s" % (o, a.text, form if metric else "plain"), "1e-5" if not a.exact else "1e-9", "ref::n1(%s)" % w)
    return a.size


def dual_cell(p, rng, form, o, cls, given):
    a = call_arg(p, rng, cls)
    n, s = p.n, p.space
    if given == "own":
        bs = [b for b in range(1, 1 << n) if not s.general and s.norm(b) != 0]
        if not bs:
            return None
        b = rng.choice(bs)
        x = p.fresh("x")
        p.emit("double const %s = cx.integernz();" % x)
        ps, pr, pt = "(%s * %s)" % (x, bb(b)), "ref::blade(%d, %d, %s)" % (n, b, x), "own pseudoscalar"
    else:
        ps, pr, pt = "ga::pseudoscalar(%s)" % s.cpp, "ref::pseudo(%d)" % n, given + " pseudoscalar"
        if not s.general and s.norm((1 << n) - 1) == 0 or s.general and not s.ns:
            return None
    args = [a.g] + ([ps] if given != "no" else [])
    compare(p, called(p, form, o, args), "ref::%s(M, %s, %s)" % (o, a.r, pr), "%s(%s) with %s, %s" % (o, a.text, pt, form), "1e-5" if not a.exact else "1e-9", "(1 + ref::n1(%s))" % a.r)
    return a.size


def versor_cell(p, rng, form, o, xs):
    if xs[0] == "G" and null_space(p.space):
        return None
    if xs[0] == "G":
        v = versor(p, rng, True)
        v.exact = True
    else:
        v = call_arg(p, rng, xs[0], True)
    a = call_arg(p, rng, xs[1])
    if v.size * v.size * a.size > 16:
        return None
    f = {"even": "apply_even_versor", "odd": "apply_odd_versor", "rotor": "apply_rotor"}[o]
    compare(p, called(p, form, f, [v.g, a.g]), "ref::%s(M, %s, %s)" % (o, v.r, a.r), "%s(%s, %s), %s" % (f, v.text, a.text, form), "1e-5" if not (a.exact and v.exact) else "1e-8",
            norm_scale(v.r, v.r, a.r) + ("" if o == "rotor" else " / std::fabs(ref::rnorm_sqr(M, %s))" % v.r))
    return v.size * v.size * a.size * 2


def exp_cell(p, rng, form, cls, kind):
    n, s = p.n, p.space
    t, _ = tolerance_arg(p, rng, kind, "1e-9")
    if kind == "const":
        return None
    if cls == "G":
        bs = [b for b in range(1, 1 << n) if popcount(b) == 2]
        if not bs:
            return None
        b = rng.choice(bs)
        x = p.fresh("x")
        p.emit("double const %s = cx.real(-2, 2);" % x)
        a = Arg("(%s * %s)" % (x, bb(b)), "ref::blade(%d, %d, %s)" % (n, b, x), "r*<%s>" % bname(b), 1, True)
    else:
        x = p.fresh("x")
        ty = rng.choice(["double", "double", "float"])
        p.emit("%s const %s = static_cast<%s>(cx.real(-2, 2));" % (ty, x, ty))
        a = Arg(x if cls == "N" else "ga::scalar(%s)" % x, "ref::scalar(%d, %s)" % (n, x), {"N": "native ", "S": "scalar "}[cls] + ty, 1, ty == "double")
    compare(p, called(p, form, "exp", [a.g] + t), "ref::exp(M, %s)" % a.r, "exp(%s), tolerance %s, %s" % (a.text, kind, form), "1e-5" if not a.exact else "1e-6", "1 + ref::n1(ref::exp(M, %s))" % a.r)
    return 2


def test_cell(p, rng, form, o, kind):
    """Null and unit tests with every kind of tolerance."""
    n, s = p.n, p.space
    t, tv = tolerance_arg(p, rng, kind, EPS[kind])
    b = rng.randrange(1 << n)
    x = p.fresh("x")
    at = "0" if o == "is_null" else "1"
    p.emit("double const %s = cx.flip() ? cx.half() : double(std::sqrt(std::fabs(%s + (cx.flip() ? 1 : -1) * (cx.flip() ? %s / 2 : %s * 2))));" % (x, at, tv, tv))
    p.emit('cx.input("%s", %s);' % (x, x))
    a = Arg("ga::scalar(%s)" % x if b == 0 else "(%s * %s)" % (x, bb(b)), "ref::blade(%d, %d, %s)" % (n, b, x), "r*<%s>" % bname(b), 1, True)
    p.emit("long double const q = ref::rnorm_sqr(M, %s), far = std::fabs(std::fabs(q) - %s);" % (a.r, at))
    p.emit("cx.assume(std::fabs(far - %s) > %s / 100);" % (tv, tv))
    p.emit('cx.require(%s == (far <= %s), "%s(%s), tolerance %s, %s"); cx.nontrivial();' % (called(p, form, o, [a.g] + t), tv, o, a.text, kind, form))
    return 1


def blades_cell(p, rng, form, o, kind):
    """Meets, joins and plunges with every kind of tolerance: blades that differ by less or by more than it."""
    n, s = p.n, p.space
    if n < 2 or s.general or n > 3:
        return None
    t, tv = tolerance_arg(p, rng, kind, EPS[kind] if kind == "none" else "cx.draw(1, 3) / 64.0")
    if kind == "const":
        return None
    i, j = rng.sample(range(n), 2)
    if o.endswith("plunge") and any(s.norm(1 << k) == 0 for k in (i, j)):
        return None
    x = near(p, rng, "(%s / 4)" % tv if kind == "none" else tv)
    y = p.fresh("x")
    p.emit("double const %s = cx.flip() ? 1 : -1;" % y)
    p.emit("cx.assume(std::fabs(%s) < %s / 2 || std::fabs(%s) > 3 * %s);" % (x, tv, x, tv))
    p.emit("auto const a = %s * %s + %s * %s;" % (y, bb(1 << i), x, bb(1 << j)))
    p.emit("ref::MV const ra = ref::blade(%d, %d, %s) + ref::blade(%d, %d, %s);" % (n, 1 << i, y, n, 1 << j, x))
    k = rng.choice([k for k in range(n) if k not in (i, j)] + [i, i])
    p.emit("auto const b = %s * %s; ref::MV const rb = ref::blade(%d, %d, %s);" % (y, bb(1 << k), n, 1 << k, y))
    apart = "true" if k != i else "std::fabs(%s) > %s" % (x, tv)
    p.emit("[[maybe_unused]] static ref::Metric const E = ref::sig(%d, 0, 0); bool const apart = %s;" % (n, apart))
    p.emit('cx.input("a", ra); cx.input("b", rb); cx.nontrivial();')
    call = called(p, form, o, ["a", "b"] + t)
    lab = "%s, tolerance %s, %s" % (o, kind, form)
    if o.endswith("plunge"):
        f = {"plunge": "meet_and_join", "fast_plunge": "fast_meet_and_join"}[o]
        p.emit("ref::MV const J = vt::D(%d, std::get<1>(%s));" % (n, called(p, form, f, ["a", "b"] + t)))
        p.emit("if (std::fabs(ref::rnorm_sqr(M, J)) > 1e-3L * ref::n1(J) * ref::n1(J))")
        p.emit('  cx.eq(vt::D(%d, %s), ref::op(ref::dual(M, rb, J), ref::dual(M, ra, J)), "%s", 1e-6, ref::n1(ra) * ref::n1(rb) / std::fabs(ref::rnorm_sqr(M, J)));' % (n, call, lab))
        return 6
    if o == "fast_join":
        p.emit("ref::MV const J = vt::D(%d, %s);" % (n, call))
    else:
        p.emit("auto const [m0, j0] = %s; ref::MV const Q = vt::D(%d, m0), J = vt::D(%d, j0);" % (call, n, n))
        p.emit('cx.require(ref::topgrade(Q, %s / 64) == (apart ? 0 : 1), "grade of the meet, %s", ref::show(Q));' % (tv, lab))
    p.emit('cx.require(ref::topgrade(J, %s / 64) == (apart ? 2 : 1), "grade of the join, %s", ref::show(J));' % (tv, lab))
    return 5


def operator_cell(p, rng, form, o, xs):
    a = call_arg(p, rng, xs[0])
    b = call_arg(p, rng, xs[1], o == "/")
    m = {"+": "(%s + %s)", "-": "(%s - %s)", "*": "ref::gp(M, %s, %s)", "/": "ref::igp(M, %s, %s)", "^": "ref::op(%s, %s)", "|": "ref::dot(M, %s, %s)", "<": "ref::lcont(M, %s, %s)", ">": "ref::rcont(M, %s, %s)"}[o] % (a.r, b.r)
    compare(p, "(%s %s %s)" % (a.g, o, b.g), m, "%s %s %s, %s" % (a.text, o, b.text, form), rel_of(a, b), "(1 + %s)" % norm_scale(a.r, b.r) if o != "/" else "(1 + ref::n1(%s))" % m)
    return a.size * b.size


def cells26():
    """Every call, as (form, function that writes it, arguments)."""
    out = []
    for o in OPS26:
        for xs in map("".join, itertools.product("GSN", repeat=2)):
            for form in ("mtr", "ns", "plain"):
                out.append((form, product_cell, (o, xs)))
    for xs in map("".join, itertools.product("GSN", repeat=2)):
        for kind in EPS:
            for form in ("mtr", "ns", "plain"):
                out.append((form, delta_cell, (xs, kind)))
    for o in ("grade", "largest_grade", "take_largest_grade", "is_zero"):
        for cls in "GSN":
            for kind in EPS:
                out.append(("plain", grade_cell, (o, cls, kind)))
    for o in ("reverse", "involute", "conjugate", "take", "take_rt", "rnorm_sqr", "rnorm", "inv", "unit"):
        for cls in "GSN":
            for form in ("mtr", "ns", "plain") if o in ("rnorm_sqr", "rnorm", "inv", "unit") else ("plain",):
                out.append((form, unary_cell, (o, cls)))
    for o in ("dual", "undual"):
        for cls in "GSN":
            for form, given in (("mtr", "own"), ("mtr", "the"), ("ns", "own"), ("ns", "the"), ("ns", "no")):
                out.append((form, dual_cell, (o, cls, given)))
    for o in ("even", "odd", "rotor"):
        for xs in map("".join, itertools.product("GSN", repeat=2)):
            for form in ("mtr", "ns"):
                out.append((form, versor_cell, (o, xs)))
    for cls in "GSN":
        for kind in ("none", "number", "scalar", "float"):
            for form in ("mtr", "ns", "plain"):
                out.append((form, exp_cell, (cls, kind)))
    for o in ("is_null", "is_unit"):
        for kind in EPS:
            for form in ("mtr", "ns"):
                out.append((form, test_cell, (o, kind)))
    for o in ("meet_and_join", "fast_meet_and_join", "fast_join", "plunge", "fast_plunge"):
        for kind in ("none", "number", "scalar", "float"):
            for form in ("mtr", "ns"):
                out.append((form, blades_cell, (o, kind)))
    for o in "+-*/^|<>":
        for xs in ("GN", "NG", "SN", "NS", "GS", "SG", "SS"):
            out.append(("ns", operator_cell, (o, xs)))
    return out


def offered(form, f, args):
    """The library has no such call otherwise: a metric is needed unless a number takes part, and some functions take no numbers."""
    if form == "plain":
        if f is product_cell and (args[1] == "GG" or args[0] == "rp" or args in (("igp", "NG"), ("igp", "SG"))):
            return False
        if f is delta_cell and args[0] == "GG" or f is unary_cell and args[1] == "G" and args[0] in ("rnorm", "rnorm_sqr", "unit", "inv"):
            return False
        if f is exp_cell and (args[0] == "G" or args[0] == "S" and args[1] != "none"):
            return False
    if f is grade_cell and args[:2] == ("is_zero", "N") or f is test_cell and args[1] == "none":
        return False
    return not (f is operator_cell and args in (("/", "SG"), ("/", "NG")))


@prop("P26", assumptions=["native numbers of type double, float, int and long with small values; blades for meets and joins that differ by clearly less or clearly more than the tolerance"])
def p26(rng, scale):
    out = []
    for _ in range(max(1, int(round(scale)))):
        cells = [c for c in cells26() if offered(*c)]
        rng.shuffle(cells)
        groups = {}
        for c in cells:
            groups.setdefault("ns" if c[0] == "ns" else "any", []).append(c)
        for kind, cs in groups.items():
            while cs:
                s = calls_space(rng, kind)
                p = Program(s)
                total, texts = 0, []
                while cs and total < 24:
                    form, f, args = cs[-1]
                    keep = len(p.lines)
                    p.emit("try {")
                    opened(p, form)
                    w = f(p, rng, form, *args)
                    if w is None:           # not in this space
                        del p.lines[keep:]
                        if rng.random() < .5:
                            cs.insert(0, cs.pop()) if rng.random() < .9 else cs.pop()
                        break
                    p.emit("} } catch (vt::Discard const &) {}")
                    texts.append("%s(%s) %s" % (f.__name__[:-5], ", ".join(args), form))
                    total += w + 2
                    cs.pop()
                if texts:
                    out.append(finish(p, "%s: %s" % (s.name, "; ".join(texts)), .4 + .06 * total, cases=120))
    return out
