"""Generators: scalar functions, graded operations, norms, duality, versors, exponentials."""
import math

from props import *
import props


# ---------------------------------------------------------------------------------------------------------------------
# Scalar functions.

class Node:
    def __init__(self, g, m, const, text):
        self.g, self.m, self.const, self.text = g, m, const, text


FUNS = {"sqrt": math.sqrt, "cbrt": lambda v: math.copysign(abs(v) ** (1 / 3), v), "abs": abs, "exp": math.exp, "log": math.log, "cos": math.cos, "sin": math.sin, "tan": math.tan, "cosh": math.cosh, "sinh": math.sinh, "tanh": math.tanh}
FUN_WEIGHTS = ["sqrt", "sqrt", "sqrt", "cbrt", "abs", "abs", "abs", "exp", "log", "cos", "sin", "tan", "cosh", "sinh", "tanh"]


def const_leaf(rng):
    if rng.random() < .6:
        k = rng.choice([-3, -2, -1, 1, 2, 3, 4, 5])
        return Node("ga::c<%d>" % k, "vt::vconst(%d)" % k, float(k), "<%d>" % k)
    p, q = rng.choice([(1, 2), (3, 2), (-1, 2), (2, 3), (-5, 4), (7, 4)])
    return Node("(ga::c<%d> / ga::c<%d>)" % (p, q), "vt::vconst(%d.0L/%d)" % (p, q), p / q, "<%d/%d>" % (p, q))


def scalar_tree(rng, leaves, depth, lazy, natives):
    if depth == 0 or rng.random() < .08:
        return rng.choice(leaves) if rng.random() < .85 else const_leaf(rng)
    sub = lambda: scalar_tree(rng, leaves, depth - 1, lazy, natives)
    w = rng.random()
    if w < .36:
        x = sub()
        f = rng.choice(FUN_WEIGHTS)
        if x.const is not None:
            if f in ("sqrt", "log") and x.const < .05 or f == "cbrt" and (x.const < .05 and lazy or abs(x.const) < .05) or f in ("exp", "cosh", "sinh") and abs(x.const) > 9 or f == "tan" and abs(math.cos(x.const)) < .15:
                return x
            c = FUNS[f](x.const)
        else:
            c = None
        v = "cbrtp" if f == "cbrt" and lazy else f
        return Node("ga::%s(%s)" % (f, x.g), "vt::v%s(%s)" % (v, x.m), c, "%s(%s)" % (f, x.text))
    if w < .58:
        x = sub()
        v = rng.random()
        if v < .55:
            k = rng.choice([-3, -2, -2, -1, -1, 0, 2, 2, 2, 3, 4, 5])
            if x.const is not None and (abs(x.const) < .05 or abs(x.const) > 8) or k == 0 and x.const is not None:
                return x
            return Node("ga::pow(%s, ga::c<%d>)" % (x.g, k), "vt::vpowi(%s, %d)" % (x.m, k), None if x.const is None else x.const ** k, "(%s)^<%d>" % (x.text, k))
        if v < .8:
            p, q = rng.choice([(1, 2), (1, 2), (3, 2), (-1, 2), (-3, 2), (1, 3), (2, 3), (5, 4)])
            if x.const is not None and not .05 < x.const < 8:
                return x
            return Node("ga::pow(%s, ga::c<%d> / ga::c<%d>)" % (x.g, p, q), "vt::vpow(%s, vt::vconst(%d.0L/%d))" % (x.m, p, q), None if x.const is None else x.const ** (p / q), "(%s)^<%d/%d>" % (x.text, p, q))
        y = sub()
        if x.const is not None and (y.const is not None or not .05 < x.const < 20) or y.const is not None and abs(y.const) > 6:
            return x
        if x.const is None and rng.random() < .5:
            # An exponent that is an expression of variables: integral, for some inputs, whatever the sign of the base.
            l = rng.choice(leaves)
            k = rng.choice([2, 2, 2, 3, 4, -2])
            y = rng.choice([l, Node("(ga::c<%d> * %s)" % (k, l.g), "vt::vmul(vt::vconst(%d), %s)" % (k, l.m), None, "<%d>*%s" % (k, l.text)),
                            Node("(%s + ga::c<%d>)" % (l.g, k), "vt::vadd(%s, vt::vconst(%d))" % (l.m, k), None, "%s+<%d>" % (l.text, k)),
                            Node("ga::pow(%s, ga::c<2>)" % l.g, "vt::vpowi(%s, 2)" % l.m, None, "%s^<2>" % l.text),
                            Node("ga::abs(ga::c<%d> * %s)" % (k, l.g), "vt::vabs(vt::vmul(vt::vconst(%d), %s))" % (k, l.m), None, "abs(<%d>*%s)" % (k, l.text))])
        if natives and rng.random() < .3:
            nat = rng.choice(natives)
            if rng.random() < .5:
                return Node("ga::pow(%s, %s)" % (x.g, nat), "vt::vpow(%s, vt::vinput(%s))" % (x.m, nat), None, "(%s)^native" % x.text)
            return Node("ga::pow(%s, %s)" % (nat, x.g), "vt::vpow(vt::vinput(%s), %s)" % (nat, x.m), None, "native^(%s)" % x.text)
        r = Node("ga::pow(%s, %s)" % (x.g, y.g), "vt::vpow(%s, %s)" % (x.m, y.m), None, "(%s)^(%s)" % (x.text, y.text))
        if rng.random() < .4:
            return Node("ga::abs(%s)" % r.g, "vt::vabs(%s)" % r.m, None, "abs(%s)" % r.text)
        return r
    if w < .64:
        x = sub()
        return Node("(-%s)" % x.g, "vt::vneg(%s)" % x.m, None if x.const is None else -x.const, "-(%s)" % x.text)
    x, y = sub(), sub()
    o = rng.choice("++--***//")
    if natives and rng.random() < .15 and x.const is None:
        nat = rng.choice(natives)
        y = Node(nat, "vt::vinput(%s)" % nat, None, "native")
        if rng.random() < .5:
            x, y = y, x
    if o == "/" and y.const is not None and abs(y.const) < .05:
        return x
    c = None
    if x.const is not None and y.const is not None:
        c = {"+": x.const + y.const, "-": x.const - y.const, "*": x.const * y.const}[o] if o != "/" else x.const / y.const
        if abs(c) > 1e4:
            return x
    f = {"+": "add", "-": "sub", "*": "mul", "/": "div"}[o]
    return Node("(%s %s %s)" % (x.g, o, y.g), "vt::v%s(%s, %s)" % (f, x.m, y.m), c, "(%s %s %s)" % (x.text, o, y.text))


# Every function that simplification knows, as a way of wrapping one argument; composed in pairs by scalar_compositions().
WRAPS = [("-%s", "(-%s)", "vt::vneg(%s)")]
WRAPS += [("<%d>/%%s" % k, "(ga::c<%d> / %%s)" % k, "vt::vdiv(vt::vconst(%d), %%s)" % k) for k in (1, -3)]
WRAPS += [("<%d>*%%s" % k, "(ga::c<%d> * %%s)" % k, "vt::vmul(vt::vconst(%d), %%s)" % k) for k in (3, -2)]
WRAPS += [("%%s+<%d>" % k, "(%%s + ga::c<%d>)" % k, "vt::vadd(%%s, vt::vconst(%d))" % k) for k in (1, -2)]
WRAPS += [("%%s^<%d>" % k, "ga::pow(%%s, ga::c<%d>)" % k, "vt::vpowi(%%s, %d)" % k) for k in (-4, -3, -2, -1, 2, 3, 4, 5)]
WRAPS += [("%%s^<%d/%d>" % (a, b), "ga::pow(%%s, ga::c<%d> / ga::c<%d>)" % (a, b), "vt::vpow(%%s, vt::vconst(%d.0L / %d))" % (a, b)) for a, b in ((1, 2), (-1, 2), (3, 2), (1, 3), (-2, 3), (5, 4))]
WRAPS += [("%s(%%s)" % f, "ga::%s(%%s)" % f, "vt::v%s(%%s)" % f) for f in ("sqrt", "cbrt", "abs", "exp", "log", "cos", "sin", "tan", "cosh", "sinh", "tanh")]
BINARIES = [("(%s + %s)", "(%s + %s)", "vt::vadd(%s, %s)"), ("(%s - %s)", "(%s - %s)", "vt::vsub(%s, %s)"), ("(%s * %s)", "(%s * %s)", "vt::vmul(%s, %s)"), ("(%s / %s)", "(%s / %s)", "vt::vdiv(%s, %s)"),
            ("pow(%s, %s)", "ga::pow(%s, %s)", "vt::vpow(%s, %s)")]


def wrapped(w, n, lazy=True):
    return Node(w[1] % n.g, (w[2].replace("vcbrt(", "vcbrtp(") if lazy else w[2]) % n.m, None, w[0] % ("(%s)" % n.text if not n.text.isalnum() else n.text))


def joined(o, x, y):
    return Node(o[1] % (x.g, y.g), o[2] % (x.m, y.m), None, o[0] % (x.text, y.text))


def scalar_compositions(rng, scale, per):
    """Pairs of functions, all of them: one applied to the other (or to an operation on variables), and operations on two of them."""
    a, b = Node("z0", "A", None, "a"), Node("z1", "B", None, "b")
    cells = []
    for outer in WRAPS:
        for inner in WRAPS:
            cells.append(wrapped(outer, wrapped(inner, a)))
        for o in BINARIES:
            cells.append(wrapped(outer, joined(o, a, b)))
        cells.append(wrapped(outer, joined(BINARIES[2], a, a)))
    both = [(o, f, g) for o in BINARIES[:4] for f in WRAPS for g in WRAPS] + [(BINARIES[4], f, g) for f in WRAPS for g in WRAPS[:22]]
    rng.shuffle(both)
    for o, f, g in both[:min(len(both), int(450 * scale))]:
        cells.append(joined(o, wrapped(f, a), wrapped(g, b if f is g else rng.choice([a, a, b]))))
    for _ in range(int(250 * scale)):
        x = wrapped(rng.choice(WRAPS), rng.choice([a, a, joined(rng.choice(BINARIES[:4]), a, b), joined(BINARIES[2], a, a)]))
        x = wrapped(rng.choice(WRAPS), x)
        cells.append(wrapped(rng.choice(WRAPS), x) if rng.random() < .6 else joined(rng.choice(BINARIES[:4]), x, rng.choice([a, b, wrapped(rng.choice(WRAPS), rng.choice([a, b]))])))
    rng.shuffle(cells)
    ps = []
    for at in range(0, len(cells), per):
        part = cells[at:at + per]
        p = Program(euclidean(1))
        how = rng.choice(["num", "rad", "rad", "small", "half"])
        xs = [p.num(how), p.num(how)]
        for x, n in zip(xs, "ab"):
            p.emit('cx.input("%s", %s);' % (n, x))
        p.emit("vt::V const A = vt::vinput(%s), B = vt::vinput(%s);" % tuple(xs))
        p.emit("(void)A; (void)B; auto const s0 = ga::scalar(%s), s1 = ga::scalar(%s);" % tuple(xs))
        for i, n in enumerate(part):
            used = [k for k in (0, 1) if "z%d" % k in n.g]
            step = n.g
            for k in used:
                step = step.replace("z%d" % k, "s%d" % k)
            p.emit("try {")
            p.emit("vt::V const want = %s;" % n.m)
            p.emit("long double const tol = 1e4L * want.e + 1e-10L;")
            if rng.random() < .3:
                p.emit('cx.within(vt::SQ(%s), want.v, tol, "%s, step by step");' % (step, n.text))
            p.emit("auto const [lz, %s] = ga::make_lazy_context_tuple(%s);" % (", ".join("z%d" % k for k in used), ", ".join("s%d" % k for k in used)))
            p.emit('cx.within(vt::SQ(lz.eval(%s)), want.v, tol, "%s, lazily");' % (n.g, n.text))
            p.emit("} catch (vt::Discard const &) {}")
        ps.append(finish(p, "scalars composed: " + "; ".join(n.text for n in part), .5))
    return ps


@prop("P08", assumptions=["arguments inside the real domain of every function and away from its singularities", "the tolerance of each comparison is ten thousand times a running bound on the rounding error"])
def p08(rng, scale):
    def mk(depths, kmax):
        lazy = rng.random() < .6
        p = Program(euclidean(1))
        k = rng.randint(1, kmax)
        leaves, names, natives = [], [], []
        how = rng.choice(["num", "rad", "rad", "small", "half"])
        for i in range(k):
            x = p.num(how)
            p.emit('cx.input("%s", %s);' % ("abc"[i], x))
            v = p.fresh("a")
            p.emit("auto const %s = ga::scalar(%s);" % (v, x))
            leaves.append(Node(v, "vt::vinput(%s)" % x, None, "abc"[i]))
            names.append(v)
            if not lazy:
                natives.append(x)
        for _ in range(40):
            t = scalar_tree(rng, leaves, rng.choice(depths), lazy, natives)
            if t.const is None and "(" in t.g and any(v in t.g for v in names):
                break
        else:
            return None
        p.emit("vt::V const want = %s;" % t.m)
        p.emit("long double const tol = 1e4L * want.e + 1e-10L;")
        p.emit("auto const now = %s;" % t.g)
        p.emit('cx.within(vt::SQ(now), want.v, tol, "evaluated step by step");')
        if lazy:
            used = [i for i in range(k) if names[i] in t.g]
            lz = t.g
            for i in used:
                lz = replace_name(lz, names[i], "z%d" % i)
            p.emit("auto const [lz, %s] = ga::make_lazy_context_tuple(%s);" % (", ".join("z%d" % i for i in used), ", ".join(names[i] for i in used)))
            p.emit("auto const later = lz.eval(%s);" % lz)
            p.emit('cx.within(vt::SQ(later), want.v, tol, "evaluated lazily");')
        return finish(p, "scalars %s: %s" % ("lazily and step by step" if lazy else "step by step", t.text), .5)
    return unique(lambda: mk([1, 2, 2], 2), int(120 * scale)) + unique(lambda: mk([2, 3, 3, 4], 3), int(200 * scale)) + scalar_compositions(rng, scale, 12)


# ---------------------------------------------------------------------------------------------------------------------
# Involutions.

ALL_KINDS = KINDS_STATIC + KINDS_DYN


def in_lazy(p, args, expr):
    """Wraps expr, a function of argument names, in a lazy context over args."""
    zs = [p.fresh("z") for _ in args]
    c = p.fresh("lz")
    p.emit("auto const [%s, %s] = ga::make_lazy_context_tuple(%s);" % (c, ", ".join(zs), ", ".join(args)))
    return "%s.eval(%s)" % (c, expr(*zs))


@prop("P09")
def p09(rng, scale):
    FORMS = [("ga::reverse(%s)", "ref::reverse(%s)"), ("~%s", "ref::reverse(%s)"), ("ga::involute(%s)", "ref::involute(%s)"), ("ga::conjugate(%s)", "ref::conjugate(%s)"), ("-%s", "(-%s)"), ("+%s", "%s")]

    def mk():
        p, a = one(rng, lambda r: any_space(r, 9), 40, ALL_KINDS)
        rat = a.kind in RATIONAL
        fs = rng.sample(FORMS, 3)
        for g, m in fs:
            v = p.fresh("g")
            if a.kind not in KINDS_DYN and rng.random() < .3:
                p.emit("auto const %s = %s;" % (v, in_lazy(p, [a.g], lambda z: g % z)))
            else:
                p.emit("auto const %s = %s;" % (v, g % a.g))
            p.emit('cx.eq(%s, %s, "%s", VT_REL > 1e-6 ? VT_REL : 1e-12);' % (dense(p.n, v, rat), m % a.r, g % "x"))
        # Two of them, one after the other, and over a product.
        (g1, m1), (g2, m2) = rng.choice(FORMS), rng.choice(FORMS)
        v = p.fresh("g")
        g = g1 % ("(" + g2 % a.g + ")")
        p.emit("auto const %s = %s;" % (v, g))
        p.emit('cx.eq(%s, %s, "%s", VT_REL > 1e-6 ? VT_REL : 1e-12);' % (dense(p.n, v, rat), m1 % ("(" + m2 % a.r + ")"), g1 % ("(" + g2 % "x" + ")")))
        return finish(p, "%s: %s and %s of %s" % (p.space.name, ", ".join(g % "x" for g, _ in fs), g1 % (g2 % "x"), a.text), .4 + .02 * a.size)

    def anti():
        """Reversion and conjugation are antiautomorphisms, involution an automorphism, of the geometric product."""
        p, a, b = two(rng, lambda r: any_space(r, 5), 12)
        rat = a.kind in RATIONAL or b.kind in RATIONAL
        p.emit("static ref::Metric const M = %s;" % p.space.ref)
        f = rng.choice(["reverse", "involute", "conjugate"])
        p.emit("auto const ab = ga::%s(ga::gp(%s, %s, %s));" % (f, a.g, b.g, p.space.cpp))
        x, y = (a, b) if f == "involute" else (b, a)
        native = lambda o: "ga::scalar(%s)" % o.g if o.kind == "native" else o.g
        p.emit("auto const ba = ga::gp(ga::%s(%s), ga::%s(%s), %s);" % (f, native(x), f, native(y), p.space.cpp))
        p.emit('cx.eq(%s, ref::%s(ref::gp(M, %s, %s)), "of the product", VT_REL, %s);' % (dense(p.n, "ab", rat), f, a.r, b.r, norm_scale(a.r, b.r)))
        p.emit('cx.eq(%s, %s, "the two sides", VT_REL, %s);' % (dense(p.n, "ab", rat), dense(p.n, "ba", rat), norm_scale(a.r, b.r)))
        return finish(p, "%s: %s of %s times %s" % (p.space.name, f, a.text, b.text), .5 + .06 * a.size * b.size)
    return unique(mk, int(260 * scale)) + unique(anti, int(70 * scale)) + unique(lambda: wide(rng, "grades"), int(20 * scale))


# ---------------------------------------------------------------------------------------------------------------------
# Grades.

def tolerance(p, rng):
    """A tolerance argument: (C++ suffix of the call, model value)."""
    w = rng.random()
    if w < .35:
        return "", "1e-8L", "default tolerance"
    if w < .55:
        t = rng.choice([0.5, 1.0, 2.0, 0.25])
        return ", %r" % t, "%rL" % t, "tolerance %r" % t
    if w < .75:
        x = p.fresh("t")
        p.emit("double const %s = cx.draw(0, 8) / 2.0;" % x)
        p.emit('cx.input("tolerance", %s);' % x)
        return ", " + x, x, "runtime tolerance"
    if w < .9:
        x = p.fresh("t")
        p.emit("double const %s = cx.draw(0, 8) / 2.0;" % x)
        p.emit('cx.input("tolerance", %s);' % x)
        return ", ga::scalar(%s)" % x, x, "runtime scalar tolerance"
    k = rng.choice([0, 1, 2])
    return ", ga::c<%d>" % k, "%d.0L" % k, "tolerance <%d>" % k


@prop("P10")
def p10(rng, scale):
    def mk():
        how = rng.choice(["spnum", "spnum", "num", "trit"])
        p, a = one(rng, lambda r: any_space(r, 8), 16, ALL_KINDS, how=how)
        rat = a.kind in RATIONAL
        n = p.n
        text = []
        pool = ["take_grade", "take_rt", "native"]
        if a.size <= 5 and a.kind not in ("qterm", "csum"):
            pool += ["grade", "grade", "flag"]      # the compiler's work grows with the power of the number of components
        if a.size <= 8:
            pool += ["largest_grade"]
        if a.size <= (6 if a.kind == "kvec" or a.kind == "vec" else 5):
            pool += ["take_largest", "take_largest"]
        for o in rng.sample(pool, 2):
            v = p.fresh("g")
            if o == "native":
                x = p.num("spnum")
                ts, tv, tt = tolerance(p, rng)
                f = rng.choice(["grade", "largest_grade", "take_largest_grade", "take_grade"])
                if f == "take_grade":
                    k = rng.randint(-1, 2)
                    p.emit("auto const %s = ga::take_grade(%s, ga::c<%d>);" % (v, x, k))
                    p.emit('cx.eqs(vt::SQ(%s), %s, "take_grade of a native value");' % (v, x if k == 0 else "0"))
                elif f == "take_largest_grade":
                    p.emit("auto const %s = ga::take_largest_grade(%s%s);" % (v, x, ts))
                    p.emit('cx.eqs(vt::SQ(%s), std::fabs(%s) > %s ? %s : 0, "take_largest_grade of a native value");' % (v, x, tv, x))
                else:
                    p.emit("ga::grade_t const %s = ga::%s(%s%s);" % (v, f, x, ts))
                    p.emit('cx.eqs(%s, std::fabs(%s) > %s ? 0 : -2, "%s of a native value");' % (v, x, tv, f))
                text.append("%s of a native value, %s" % (f, tt))
                continue
            if o in ("grade", "flag"):
                ts, tv, tt = tolerance(p, rng)
                if o == "grade":
                    p.emit("ga::grade_t const %s = ga::grade(%s%s);" % (v, a.g, ts))
                    p.emit('cx.eqs(%s, ref::gradeflag(%s, %s), "grade, %s");' % (v, a.r, tv, tt))
                else:
                    p.emit("auto const %s = ga::grade(%s%s).flag();" % (v, a.g, ts))
                    p.emit('{ int const w = ref::gradeflag(%s, %s); cx.eqs(%s, w >= 0 ? 0 : w, "flag of grade, %s"); }' % (a.r, tv, v, tt))
                p.emit("cx.nontrivial();")
            elif o == "largest_grade":
                ts, tv, tt = tolerance(p, rng)
                p.emit("ga::grade_t const %s = ga::largest_grade(%s%s);" % (v, a.g, ts))
                p.emit('{ int const w = ref::topgrade(%s, %s); cx.eqs(%s, w < 0 ? -2 : w, "largest_grade, %s"); }' % (a.r, tv, v, tt))
            elif o == "take_largest":
                if a.kind in KINDS_DYN:
                    continue
                ts, tv, tt = tolerance(p, rng)
                if rng.random() < .3:
                    z = p.fresh("z")
                    p.emit("auto const %s = %s;" % (v, in_lazy(p, [a.g], lambda z: "ga::take_largest_grade(%s%s)" % (z, "" if not ts else ", ga::scalar(%s)" % ts[2:] if ts[2] in "x" else ts))) if not ts else "auto const %s = ga::take_largest_grade(%s%s);" % (v, a.g, ts))
                else:
                    p.emit("auto const %s = ga::take_largest_grade(%s%s);" % (v, a.g, ts))
                p.emit('{ int const w = ref::topgrade(%s, %s); cx.eq(%s, w < 0 ? ref::MV(%d) : ref::take(%s, w), "take_largest_grade, %s", 1e-12); }' % (a.r, tv, dense(n, v, rat), n, a.r, tt))
            elif o == "take_grade":
                k = rng.randint(0 if a.kind in KINDS_DYN else -1, n + 1)
                e = "ga::take_grade(%%s, ga::c<%d>)" % k
                if a.kind not in KINDS_DYN and rng.random() < .3:
                    p.emit("auto const %s = %s;" % (v, in_lazy(p, [a.g], lambda z: e % z)))
                else:
                    p.emit("auto const %s = %s;" % (v, e % a.g))
                tt = "<%d>" % k
                p.emit('cx.eq(%s, ref::take(%s, %d), "take_grade", 1e-12);' % (dense(n, v, rat), a.r, k))
            else:
                if a.kind in KINDS_DYN:
                    continue
                k = p.fresh("k")
                p.emit("ga::grade_t const %s = ga::grade_t(cx.draw(0, %d));" % (k, n + 1))
                p.emit('cx.input("grade", %s);' % k)
                e = rng.choice(["%s", "ga::scalar(%s)"]) % k
                p.emit("auto const %s = ga::take_grade(%s, %s);" % (v, a.g, e))
                p.emit('cx.eq(%s, ref::take(%s, %s), "take_grade", 1e-12);' % (dense(n, v, rat), a.r, k))
                tt = "runtime grade"
            text.append("%s (%s)" % (o, tt))
        if not text:
            return None
        return finish(p, "%s: %s of %s" % (p.space.name, ", ".join(text), a.text), .5 + .05 * a.size + (3 if a.size >= 5 else 0))
    return unique(mk, int(300 * scale))


# ---------------------------------------------------------------------------------------------------------------------
# Norms, inverses and tests.

@prop("P11", assumptions=["norms of multivectors whose squared norm is not negative; inverses of versors whose squared norm is at least 0.01 in magnitude"])
def p11(rng, scale):
    def call(p, name, a, extra=""):
        if p.space.ns and rng.random() < .5:
            return "%s::%s(%s%s)" % (p.space.ns, name, a, extra)
        return "ga::%s(%s%s, %s)" % (name, a, extra, p.space.cpp)

    def norms():
        how = rng.choice(["num", "spnum", "num"])
        p, a = one(rng, lambda r: any_space(r, 7), 10, ["const", "scalar", "cblade", "cvector", "cterm", "qterm", "rterm", "sbb", "sum", "csum", "mixsum", "vec", "kvec", "fmv"], how=how,
                   blades=lambda s, k: [b for b in range(1 << s.n) if s.norm(b) or k not in ("cblade", "cterm", "qterm", "rterm", "sbb")])
        rat = a.kind in RATIONAL
        p.lines.insert(0, "    static ref::Metric const M = %s;" % p.space.ref)
        p.emit("ref::R const q = ref::rnorm_sqr(M, %s);" % a.r)
        v = p.fresh("g")
        p.emit("auto const %s = %s;" % (v, call(p, "rnorm_sqr", a.g)))
        p.emit('cx.eqs(vt::SQ(%s), q, "rnorm_sqr", VT_REL, %s);' % (v, norm_scale(a.r, a.r)))
        for o in rng.sample(["rnorm", "unit", "unit"], 2):
            v = p.fresh("g")
            if o == "rnorm":
                if a.size == 1 and "scalar" not in a.kind and a.kind in ("cblade", "cterm", "qterm", "cvector"):
                    continue
                p.emit("if (q >= 0.001L || q == 0) {")
                p.emit("auto const %s = %s;" % (v, call(p, "rnorm", a.g)))
                p.emit('cx.eqs(vt::SQ(%s), std::sqrt(q), "rnorm", 1e-7, ref::n1(%s));' % (v, a.r))
                p.emit("}")
            else:
                p.emit("if (geo::tame(M, %s)) {" % a.r)
                p.emit("auto const %s = %s;" % (v, call(p, "unit", a.g)))
                p.emit('cx.eq(%s, (1 / std::sqrt(std::fabs(q))) * %s, "unit", 1e-7, ref::n1(%s));' % (dense(p.n, v, True), a.r, a.r))
                p.emit("}")
        return finish(p, "%s: norms of %s" % (p.space.name, a.text), .7 + .06 * a.size * (2 if p.space.general else 1))

    def inverses():
        p = Program(any_space(rng, 6))
        p.emit("static ref::Metric const M = %s;" % p.space.ref)
        a = versor(p, rng, True)
        v = p.fresh("g")
        z = rng.random() < .25
        p.emit("auto const %s = %s;" % (v, in_lazy(p, [a.g], lambda z: "ga::inv(%s, %s)" % (z, p.space.cpp)) if z else call(p, "inv", a.g)))
        p.emit("ref::MV const w = ref::inv(M, %s);" % a.r)
        p.emit('cx.eq(%s, w, "inv", VT_REL, ref::n1(w));' % dense(p.n, v, True))
        p.emit('cx.eq(ref::gp(M, %s, %s), ref::scalar(%d, 1), "x times its inverse", 1e-8, ref::n1(w) * ref::n1(%s));' % (a.r, dense(p.n, v, True), p.n, a.r))
        return finish(p, "%s: inverse of %s" % (p.space.name, a.text), .7 + .06 * a.size)

    def tests():
        how = rng.choice(["trit", "spnum", "num"])
        p, a = one(rng, lambda r: any_space(r, 6), 9, ["scalar", "const", "cblade", "cvector", "cterm", "qterm", "csum", "mixsum", "rterm", "sbb", "sum", "vec", "kvec", "fmv"], how=how)
        p.lines.insert(0, "    static ref::Metric const M = %s;" % p.space.ref)
        text = []
        for o in rng.sample(["is_zero", "is_null", "is_unit"], 2):
            ts, tv, tt = tolerance(p, rng)
            v = p.fresh("g")
            if o == "is_zero":
                p.emit("bool const %s = ga::is_zero(%s%s);" % (v, a.g, ts if ts.startswith(", ") and "ga::" not in ts else ", " + tv if not ts and rng.random() < .3 else "" if not ts else ", " + (tv if "." not in tv else tv.rstrip("L"))))
                p.emit('cx.require(%s == (%s.maxabs() <= %s), "is_zero, %s", ref::show(%s)); if (!%s) cx.nontrivial();' % (v, a.r, tv, tt, a.r, v))
            else:
                t = ts if ts and "ga::" not in ts else ", 1e-8" if not ts else ", " + tv.rstrip("L")
                if rng.random() < .4 and p.space.ns:
                    p.emit("bool const %s = %s::%s(%s%s);" % (v, p.space.ns, o, a.g, t))
                else:
                    p.emit("bool const %s = ga::%s(%s%s, %s);" % (v, o, a.g, t, p.space.cpp))
                p.emit("ref::R const q%s = ref::rnorm_sqr(M, %s);" % (v, a.r))
                want = "std::fabs(q%s) <= %s" % (v, tv) if o == "is_null" else "std::fabs(std::fabs(q%s) - 1) <= %s" % (v, tv)
                p.emit('cx.require(%s == (%s), "%s, %s", ref::show(%s)); cx.nontrivial();' % (v, want, o, tt, a.r))
            text.append("%s (%s)" % (o, tt))
        return finish(p, "%s: %s of %s" % (p.space.name, ", ".join(text), a.text), .5 + .06 * a.size)

    def natives():
        p = Program(ns_space(rng))
        x = p.num()
        p.emit('cx.input("x", %s);' % x)
        o = rng.choice(["rnorm_sqr", "rnorm", "inv", "unit", "inv", "unit"])
        m = rng.random() < .5
        s = rng.random() < .5
        v = "ga::%s(%s%s)" % (o, "ga::scalar(%s)" % x if s else x, ", " + p.space.cpp if m else "")
        if o in ("inv", "unit"):
            p.emit("cx.assume(%s != 0);" % x)
        p.emit("auto const g = %s;" % v)
        w = {"rnorm_sqr": "%s * %s", "rnorm": "std::fabs(%s)", "inv": "1 / %s", "unit": "%s > 0 ? 1.0 : -1.0"}[o]
        p.emit('cx.eqs(vt::SQ(g), %s, "%s", VT_REL);' % (w.replace("%s", x), o))
        return finish(p, "%s: %s" % (p.space.name, v), .4)
    return unique(norms, int(130 * scale)) + unique(inverses, int(90 * scale)) + unique(tests, int(90 * scale)) + unique(natives, int(20 * scale))


# ---------------------------------------------------------------------------------------------------------------------
# Duality.

@prop("P12", assumptions=["dualisation with respect to blades whose squared norm is at least 0.01 in magnitude"])
def p12(rng, scale):
    def default():
        p, a = one(rng, lambda r: ns_space(r), 16, KINDS_STATIC)
        s = p.space
        deg = s.norm((1 << s.n) - 1) == 0
        rat = True
        p.lines.insert(0, "    static ref::Metric const M = %s;" % s.ref)
        p.emit("ref::MV const I = ref::pseudo(%d);" % s.n)
        native = rng.random() < .08
        if not deg:
            p.emit("auto const d = %s::dual(%s);" % (s.ns, a.g))
            p.emit('cx.eq(%s, ref::dual(M, %s, I), "dual", VT_REL);' % (dense(p.n, "d", rat), a.r))
            p.emit("auto const b = %s::undual(%s::dual(%s));" % (s.ns, s.ns, a.g))
            p.emit('cx.eq(%s, %s, "undual of dual", VT_REL);' % (dense(p.n, "b", rat), a.r))
        p.emit("auto const u = %s::undual(%s);" % (s.ns, a.g))
        p.emit('cx.eq(%s, ref::undual(M, %s, I), "undual", VT_REL);' % (dense(p.n, "u", rat), a.r))
        return finish(p, "%s: dual and undual of %s" % (s.ns, a.text), .7 + .05 * a.size * (2 if s.general else 1))

    def custom():
        p, a = one(rng, lambda r: any_space(r, 6), 8, KINDS_STATIC)
        s = p.space
        p.lines.insert(0, "    static ref::Metric const M = %s;" % s.ref)
        bs = [b for b in range(1, 1 << s.n) if s.norm(b) != 0]
        if not bs:
            return None
        k = rng.choice(["full", "cblade", "rterm", "sbb", "cterm", "vector"])
        if k == "full":
            if s.norm((1 << s.n) - 1) == 0:
                return None
            i = p.declare("ga::pseudoscalar(%s)" % s.cpp, "ref::pseudo(%d)" % s.n, "pseudoscalar", 1)
        elif k == "vector":
            i = p.operand(rng, "sum", grades={1}, terms=3)
        else:
            i = p.operand(rng, k, blades=bs)
        p.emit("cx.assume(geo::tame(M, %s));" % i.r)
        mode = rng.choice(["mtr", "ns", "lazy"]) if s.ns else rng.choice(["mtr", "lazy"])
        for o in ("dual", "undual"):
            v = p.fresh("g")
            if mode == "ns":
                p.emit("auto const %s = %s::%s(%s, %s);" % (v, s.ns, o, a.g, i.g))
            elif mode == "lazy":
                p.emit("auto const %s = %s;" % (v, in_lazy(p, [a.g, i.g], lambda z, w: "ga::%s(%s, %s, %s)" % (o, z, w, s.cpp))))
            else:
                p.emit("auto const %s = ga::%s(%s, %s, %s);" % (v, o, a.g, i.g, s.cpp))
            p.emit('cx.eq(%s, ref::%s(M, %s, %s), "%s", VT_REL, %s);' % (dense(p.n, v, True), o, a.r, i.r, o, norm_scale(a.r, i.r) + ("/std::fabs(ref::rnorm_sqr(M, %s))" % i.r if o == "dual" else "")))
        return finish(p, "%s: dual and undual of %s by %s" % (s.name, a.text, i.text), .8 + .08 * a.size * i.size)

    def native():
        p = Program(rng.choice([euclidean(rng.randint(1, 5)), homogeneous(rng.randint(1, 4)), minkowski(rng.randint(1, 3)), conformal(rng.randint(1, 3))]))
        s = p.space
        x = p.num()
        p.emit("static ref::Metric const M = %s;" % s.ref)
        p.emit("auto const d = ga::dual(%s, ga::pseudoscalar(%s), %s);" % (x, s.cpp, s.cpp))
        p.emit("auto const u = ga::undual(%s, ga::pseudoscalar(%s), %s);" % (x, s.cpp, s.cpp))
        p.emit("ref::MV const I = ref::pseudo(%d), r = ref::scalar(%d, %s);" % (s.n, s.n, x))
        p.emit('cx.eq(vt::D(%d, d), ref::dual(M, r, I), "dual of a native value"); cx.eq(vt::D(%d, u), ref::undual(M, r, I), "undual of a native value");' % (s.n, s.n))
        return finish(p, "%s: dual and undual of a native value" % s.name, .5)
    return unique(default, int(110 * scale)) + unique(custom, int(140 * scale)) + unique(native, int(8 * scale))


# ---------------------------------------------------------------------------------------------------------------------
# Versors.

@prop("P13", assumptions=["versors whose squared norm is at least 0.01 in magnitude; products of at most about 80 terms"])
def p13(rng, scale):
    def mk():
        while True:
            s = any_space(rng, 5)
            p = Program(s)
            p.emit("static ref::Metric const M = %s;" % s.ref)
            v = versor(p, rng, True)
            a = p.operand(rng, rng.choice(["scalar", "cblade", "cvector", "cterm", "qterm", "rterm", "sbb", "sum", "csum", "mixsum", "vec", "native"]))
            if v.size * v.size * a.size <= (24 if s.general else 60):
                break
        o = rng.choice(["even", "odd", "rotor"])
        f = {"even": "apply_even_versor", "odd": "apply_odd_versor", "rotor": "apply_rotor"}[o]
        w = rng.random()
        v1 = p.fresh("g")
        if s.ns and w < .4:
            p.emit("auto const %s = %s::%s(%s, %s);" % (v1, s.ns, f, v.g, a.g))
        elif w < .6 and "native" not in a.text:
            p.emit("auto const %s = %s;" % (v1, in_lazy(p, [v.g, a.g], lambda y, z: "ga::%s(%s, %s, %s)" % (f, y, z, s.cpp))))
        else:
            p.emit("auto const %s = ga::%s(%s, %s, %s);" % (v1, f, v.g, a.g, s.cpp))
        p.emit('cx.eq(%s, ref::%s(M, %s, %s), "%s", 1e-8, %s%s);' % (dense(p.n, v1, True), o, v.r, a.r, f, norm_scale(v.r, v.r, a.r), "" if o == "rotor" else " / std::fabs(ref::rnorm_sqr(M, %s))" % v.r))
        return finish(p, "%s: %s(%s, %s)" % (s.name, f, v.text, a.text), .8 + .05 * v.size * v.size * a.size * (2 if s.general else 1))

    def rotors():
        """A rotor made by the exponential of a plane, or of two unit vectors, keeps lengths and composes."""
        s = euclidean(rng.choice([2, 3, 3, 4])) if rng.random() < .6 else rng.choice([homogeneous(2), minkowski(1), plane_based(2), conformal(2)])
        p = Program(s)
        n = s.n
        p.emit("static ref::Metric const M = %s;" % s.ref)
        i, j = rng.sample(range(n), 2)
        t = p.num("rad")
        b = (1 << i) | (1 << j)
        p.emit('cx.input("angle", %s);' % t)
        if s.general or s.norm(b) in (0, -1):
            p.emit("cx.assume(std::fabs(%s) <= 2);" % t)
        p.emit("auto const B = %s * %s;" % (t, bb(b)))
        p.emit("auto const R = ga::exp(B, %s);" % s.cpp)
        p.emit("ref::MV const Rm = ref::exp(M, ref::blade(%d, %d, %s));" % (n, b, t))
        a = p.operand(rng, "vec")
        p.emit("auto const x = ga::apply_rotor(R, %s, %s);" % (a.g, s.cpp))
        p.emit('cx.eq(%s, ref::rotor(M, Rm, %s), "apply_rotor", 1e-7, ref::n1(%s) * ref::n1(Rm) * ref::n1(Rm));' % (dense(n, "x"), a.r, a.r))
        p.emit('cx.eqs(vt::SQ(ga::sp(x, x, %s)), ref::sp(M, %s, %s)[0], "length", 1e-6, %s * std::pow(ref::n1(Rm), 4));' % (s.cpp, a.r, a.r, norm_scale(a.r, a.r)))
        return finish(p, "%s: rotor in the plane %s applied to %s" % (s.name, bname(b), a.text), 1.5)
    return unique(mk, int(190 * scale)) + unique(rotors, int(40 * scale))


# ---------------------------------------------------------------------------------------------------------------------
# Exponentials.

@prop("P14", assumptions=["blades of even grade with coefficients whose exponentials stay below 1e5"])
def p14(rng, scale):
    def mk():
        s = any_space(rng, 6)
        p = Program(s)
        n = s.n
        p.emit("static ref::Metric const M = %s;" % s.ref)
        evens = [b for b in range(1, 1 << n) if popcount(b) % 2 == 0]
        k = rng.choice(["rterm", "rterm", "sbb", "cblade", "cterm", "wedge", "wedge", "scalar", "kvec", "mixed", "line"])
        how = rng.choice(["rad", "rad", "small"])
        if k == "scalar":
            a = p.operand(rng, "scalar", how="rad")
        elif n < 2:
            return None
        elif k in ("rterm", "sbb", "cblade", "cterm"):
            a = p.operand(rng, k, blades=evens, how=how)
        elif k == "kvec":
            if n > 3:
                return None
            a = p.operand(rng, "kvec", grades={2}, how=how)   # every 2-vector is a blade in at most 3 dimensions
        elif k == "line":
            i = rng.randrange(n)
            rest = [b for b in range(n) if b != i]
            bs = [(1 << i) | (1 << j) for j in rng.sample(rest, min(len(rest), rng.randint(1, 3)))]
            a = p.operand(rng, rng.choice(["sum", "mixsum"]), blades=bs, terms=len(bs), how=how)  # e_i times a vector
        elif k == "mixed":
            if n < 3:
                return None
            a = p.operand(rng, "mixsum", blades=[3, 5, 6], terms=3, how=how)
        else:
            u, v = p.operand(rng, "sum", grades={1}, terms=min(n, 2), how=how), p.operand(rng, "sum", grades={1}, terms=min(n, 3), how=how)
            a = p.declare("ga::op(%s, %s, %s)" % (u.g, v.g, s.cpp), "ref::op(%s, %s)" % (u.r, v.r), "%s ^ %s" % (u.text, v.text), 3)
        p.emit("ref::R const q = ref::sp(M, %s, %s)[0];" % (a.r, a.r))
        p.emit("cx.assume(q <= 36);")
        p.emit("cx.assume(ref::n1(%s) <= 60);" % a.r)
        w = rng.random()
        tol = "1e-8L"
        v = p.fresh("g")
        if w < .25 and s.ns:
            e = "%s::exp(%s)" % (s.ns, a.g)
        elif w < .4 and k != "scalar":
            t = rng.choice(["0.5", "4.0"])
            e = "ga::exp(%s, %s, %s)" % (a.g, t, s.cpp)
            tol = t
        elif w < .55:
            e = in_lazy(p, [a.g], lambda z: "ga::exp(%s, %s)" % (z, s.cpp))
        elif w < .65 and s.ns and k != "scalar":
            t = rng.choice(["0.5", "4.0"])
            e = "%s::exp(%s, %s)" % (s.ns, a.g, t)
            tol = t
        else:
            e = "ga::exp(%s, %s)" % (a.g, s.cpp)
        p.emit("auto const %s = %s;" % (v, e))
        p.emit("ref::MV want = ref::exp(M, %s);" % a.r)
        p.emit("cx.assume(std::fabs(std::fabs(q) - %s) > 1e-7L * (1 + std::fabs(q)) || q == 0 || std::fabs(q * 16 - std::round(q * 16)) == 0);" % tol)
        if k != "scalar":
            p.emit("if (std::fabs(q) <= %s) want = ref::scalar(%d, 1) + %s;" % (tol, n, a.r))
        p.emit('cx.eq(%s, want, "exp", 1e-6, ref::n1(want));' % dense(n, v, True))
        return finish(p, "%s: %s of %s" % (s.name, e.replace(a.g, "x"), a.text), .8 + .08 * a.size * a.size)
    return unique(mk, int(260 * scale))
