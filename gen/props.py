"""Generators of the programs that decide each property."""
import re
from base import *

PROPS = {}
DEFAULT_RULE = "a case is one run of one generated program on one generated input; it is non-trivial when at least one compared model value is not zero (or the program marks it so), and distinct cases differ in program or input"


def prop(pid, rule=DEFAULT_RULE, **kw):
    def deco(f):
        PROPS[pid] = dict(gen=f, rule=rule, **kw)
        return f
    return deco


METRIC_OPS = ["gp", "lcont", "rcont", "dot", "hip", "sp"]


def dense(n, x, rational=False):
    """C++ that copies a GATL value into the model's representation."""
    return "vt::DQ<%d>(%s)" % (n, x) if rational else "vt::D(%d, %s)" % (n, x)


def norm_scale(*rs):
    return "*".join("ref::n1(%s)" % r for r in rs)


def product_prog(rng, make_space, ops, limit, nall, per_pair, kinds=None):
    p, a, b = two(rng, make_space, limit, kinds)
    pairs = a.size * b.size
    os_ = list(ops) if pairs <= nall else rng.sample(ops, 1 if pairs > 3 * nall else 2)
    n = p.n
    rat = a.kind in RATIONAL or b.kind in RATIONAL
    p.emit("static ref::Metric const M = %s;" % p.space.ref)
    for o in os_:
        r = p.fresh("g")
        p.emit("auto const %s = ga::%s(%s, %s, %s);" % (r, o, a.g, b.g, p.space.cpp))
        p.emit('cx.eq(%s, ref::%s(M, %s, %s), "%s", VT_REL, %s);' % (dense(n, r, rat), o, a.r, b.r, o, norm_scale(a.r, b.r)))
    return finish(p, "%s: %s(%s, %s)" % (p.space.name, "/".join(os_), a.text, b.text), .3 + per_pair * pairs * len(os_) + .05 * len(os_))


@prop("P01", assumptions=["operands whose coefficients are doubles; products between operands of at most 64 pairs of components (256 in 4 dimensions or fewer)"])
def p01(rng, scale):
    out = unique(lambda: product_prog(rng, orth_space, METRIC_OPS, 20, 12, .025), int(130 * scale))
    out += unique(lambda: product_prog(rng, lambda r: orth_space(r, 5), METRIC_OPS, 64, 12, .025), int(90 * scale))
    out += unique(lambda: product_prog(rng, lambda r: orth_space(r, 4), METRIC_OPS, 256, 12, .025, ["mv", "kvec", "fmv", "mixsum"]), int(25 * scale))
    out += unique(lambda: wide(rng, "metric"), int(20 * scale))
    return out


@prop("P02", assumptions=["as P01, in conformal models and in vector spaces given by a constant symmetric matrix of small integers"])
def p02(rng, scale):
    out = unique(lambda: product_prog(rng, gen_space, METRIC_OPS, 12, 12, .05), int(110 * scale))
    out += unique(lambda: product_prog(rng, gen_space, METRIC_OPS, 40, 8, .05), int(70 * scale))
    out += unique(lambda: product_prog(rng, lambda r: gen_space(r, 4), METRIC_OPS, 128, 8, .05, ["mv", "kvec", "fmv", "mixsum"]), int(15 * scale))

    def high():
        """Blades of high grade in dense metrics: minors of every order."""
        n = rng.choice([3, 4, 4, 4, 4, 5])
        s = random_general(rng, n)
        p = Program(s)
        p.emit("static ref::Metric const M = %s;" % s.ref)
        low = lambda: n - rng.choice([0, 0, 0, 1, 1, 2])
        pool = lambda lo: [b for b in range(1 << n) if popcount(b) >= lo]
        k = ["cblade", "cterm", "rterm", "sbb", "qterm"] + ([] if n > 4 else ["sum"])
        k1, k2 = rng.choice(k), rng.choice(k)
        a, b = p.operand(rng, k1, blades=pool(low()), terms=2), p.operand(rng, k2, blades=pool(low()), terms=2)
        rat = k1 in RATIONAL or k2 in RATIONAL
        os_ = rng.sample(METRIC_OPS, 3 if n < 5 else 2)
        for o in os_:
            r = p.fresh("g")
            p.emit("auto const %s = ga::%s(%s, %s, %s);" % (r, o, a.g, b.g, s.cpp))
            p.emit('cx.eq(%s, ref::%s(M, %s, %s), "%s", VT_REL, 50 * %s);' % (dense(n, r, rat), o, a.r, b.r, o, norm_scale(a.r, b.r)))
        return finish(p, "%s: %s(%s, %s)" % (s.name, "/".join(os_), a.text, b.text), .8 + .3 * a.size * b.size * (3 if n > 4 else 1), cases=60)
    return out + unique(high, int(60 * scale))


@prop("P03")
def p03(rng, scale):
    def mk(space, limit):
        p, a, b = two(rng, space, limit)
        pairs = a.size * b.size
        n = p.n
        rat = a.kind in RATIONAL or b.kind in RATIONAL
        os_ = ["op", "rp"] if pairs <= 60 else [rng.choice(["op", "rp"])]
        for o in os_:
            r = p.fresh("g")
            p.emit("auto const %s = ga::%s(%s, %s, %s);" % (r, o, a.g, b.g, p.space.cpp))
            p.emit('cx.eq(%s, ref::%s(%s, %s), "%s", VT_REL, %s);' % (dense(n, r, rat), o, a.r, b.r, o, norm_scale(a.r, b.r)))
        return finish(p, "%s: %s(%s, %s)" % (p.space.name, "/".join(os_), a.text, b.text), .3 + .022 * pairs * len(os_))
    out = unique(lambda: mk(any_space, 40), int(170 * scale))
    out += unique(lambda: mk(lambda r: any_space(r, 5), 150), int(60 * scale))
    out += unique(lambda: wide(rng, "outer"), int(20 * scale))
    return out


def versor(p, rng, small=False):
    """An operand that is an invertible versor; emits the assumption that it is not (nearly) null."""
    s, n = p.space, p.n
    while True:
        k = rng.choice(["cblade", "sbb", "rterm", "cterm", "scalar", "vector", "vector", "pair", "even", "odd", "blade2"])
        if k in ("cblade", "sbb", "rterm", "cterm"):
            bs = [b for b in range(1 << n) if s.norm(b) != 0 and (b & (b - 1) == 0 or s.norm(b) == det_diag(s, b))]
            v = p.operand(rng, k, blades=bs)
        elif k == "scalar":
            v = p.operand(rng, k)
        elif k == "vector":
            v = p.operand(rng, rng.choice(["vec", "kvec"]), grades={1}) if n <= 5 else p.operand(rng, "sum", blades=[1 << i for i in range(n)])
        elif k in ("pair", "blade2"):
            if n > 4 or small and n > 3:
                continue
            a, b = p.operand(rng, "sum" if s.n > 3 else "kvec", grades={1}), p.operand(rng, "sum", grades={1}, terms=2)
            if k == "pair":
                v = p.declare("ga::gp(%s, %s, %s)" % (a.g, b.g, s.cpp), "ref::gp(M, %s, %s)" % (a.r, b.r), "%s %s" % (a.text, b.text), 1 + a.size * b.size // 2)
            else:
                v = p.declare("ga::op(%s, %s, %s)" % (a.g, b.g, s.cpp), "ref::op(%s, %s)" % (a.r, b.r), "%s ^ %s" % (a.text, b.text), a.size * b.size // 2)
        else:
            if n > 3 or n < 2 or s.general:
                continue
            v = p.operand(rng, "sum", grades={0, 2} if k == "even" else {1, 3}, terms=rng.randint(2, 4))
        v.kind = {"cterm": "csum"}.get(k, "sum")
        v.even = k in ("pair", "even", "scalar", "blade2")
        p.emit("cx.assume(geo::tame(M, %s));" % v.r)
        return v


def det_diag(s, b):
    d = 1
    for i in bits(b):
        d *= s.matrix[i - 1][i - 1]
    return d


OPERATORS = {"gp": "*", "op": "^", "lcont": "<", "rcont": ">", "dot": "|"}


@prop("P04", assumptions=["the right operand of the inverse product is an invertible versor", "delta products of operands whose products are exact in double precision"])
def p04(rng, scale):
    def small_pair(space):
        """The compiler's work grows with the power of the number of components of the delta product."""
        while True:
            p, a, b = two(rng, space, 9)
            if a.size * b.size <= (4 if p.space.general else 9) and max(a.size, b.size) <= 4 or a.size * b.size <= (2 if p.space.general else 6):
                return p, a, b

    def derived():
        """cp, dp, igp through the generic functions."""
        o = rng.choice(["cp", "dp", "igp", "igp"])
        mk = (lambda r: any_space(r, 6))
        if o == "igp":
            p, a = one(rng, mk, 6)
            p.lines.insert(0, "    static ref::Metric const M = %s;" % p.space.ref)
            b = versor(p, rng, True)
        else:
            p, a, b = small_pair(mk) if o == "dp" else two(rng, mk, 20)
            p.lines.insert(0, "    static ref::Metric const M = %s;" % p.space.ref)
        emit_op(p, o, "ga::%s(%s, %s, %s)" % (o, a.g, b.g, p.space.cpp), a, b)
        pairs = a.size * b.size
        return finish(p, "%s: %s(%s, %s)" % (p.space.name, o, a.text, b.text), .6 + .06 * pairs)

    def emit_op(p, o, expr, a, b):
        rat = a.kind in RATIONAL or b.kind in RATIONAL or o in ("cp", "igp")
        g = p.fresh("g")
        p.emit("auto const %s = %s;" % (g, expr))
        m = "ref::%s(%s%s, %s)" % (o, "" if o in ("op", "rp") else "M, ", a.r, b.r)
        sc = "%s*ref::n1(ref::inv(M, %s))" % (norm_scale(a.r), b.r) if o == "igp" else norm_scale(a.r, b.r)
        p.emit('cx.eq(%s, %s, "%s", VT_REL, %s);' % (dense(p.n, g, rat), m, expr.replace('"', ''), sc))

    def tolerant():
        """Delta products with a given tolerance: the highest grade with a coefficient above it."""
        p, a, b = small_pair(ns_space if rng.random() < .5 else lambda r: any_space(r, 5))
        s = p.space
        p.lines.insert(0, "    static ref::Metric const M = %s;" % s.ref)
        w = rng.random()
        x = p.fresh("t")
        how = rng.choice(["cx.draw(0, 8) / 2.0", "cx.draw(0, 8) / 2.0", "cx.pos()", "0.5", "2.0"])
        p.emit("double const %s = %s;" % (x, how))
        p.emit('cx.input("tolerance", %s);' % x)
        t = rng.choice([x, "ga::scalar(%s)" % x])
        mode = rng.choice(["mtr", "ns"] if s.ns else ["mtr"])
        g = p.fresh("g")
        if mode == "mtr":
            p.emit("auto const %s = ga::dp(%s, %s, %s, %s);" % (g, a.g, b.g, t, s.cpp))
        else:
            p.emit("auto const %s = %s::dp(%s, %s, %s);" % (g, s.ns, a.g, b.g, t))
        p.emit("ref::MV const ab = ref::gp(M, %s, %s);" % (a.r, b.r))
        p.emit("int const w = ref::topgrade(ab, %s);" % x)
        p.emit('cx.eq(%s, w < 0 ? ref::MV(%d) : ref::take(ab, w), "dp", VT_REL, %s);' % (dense(p.n, g, a.kind in RATIONAL or b.kind in RATIONAL), p.n, norm_scale(a.r, b.r)))
        return finish(p, "%s: dp(%s, %s) with tolerance %s, %s" % (s.name, a.text, b.text, t[:10], mode), .8 + .06 * a.size * b.size)

    def overload():
        """Operators and functions of a model's namespace, which take no metric argument."""
        o = rng.choice(METRIC_OPS + ["op", "rp", "cp", "igp", "dp"] + list(OPERATORS) * 2)
        if o == "igp":
            p, a = one(rng, ns_space, 6)
            p.lines.insert(0, "    static ref::Metric const M = %s;" % p.space.ref)
            b = versor(p, rng, True)
        else:
            p, a, b = small_pair(ns_space) if o == "dp" else two(rng, ns_space, 16)
            p.lines.insert(0, "    static ref::Metric const M = %s;" % p.space.ref)
        p.emit("using namespace %s;" % p.space.ns)
        forms = ["%s(%s, %s)" % (o, a.g, b.g)]
        if o in OPERATORS:
            forms = ["%s %s %s" % (a.g, OPERATORS[o], b.g)] + (forms if a.size * b.size < 6 else [])
        if o == "igp" and b.text == "scalar":
            forms = ["%s / %s" % (a.g, b.g)]
        for f in forms:
            emit_op(p, o, f, a, b)
        return finish(p, "%s: %s with %s, %s" % (p.space.ns, "; ".join(forms), a.text, b.text), .5 + .04 * a.size * b.size)

    out = unique(derived, int(110 * scale)) + unique(overload, int(170 * scale)) + unique(tolerant, int(60 * scale))
    return out


# ---------------------------------------------------------------------------------------------------------------------
# Expression trees.

class Tree:
    """An expression over declared operands: its GATL source (over argument names), its model source, the set of basis
    blades it may have, a bound on the number of monomials, and a source bounding its magnitude."""

    def __init__(self, g, r, support, terms, bound, text, scalar=False):
        self.g, self.r, self.support, self.terms, self.bound, self.text = g, r, frozenset(support), terms, bound, text


def op_support(s, o, x, y):
    out = set()
    for a in x:
        for b in y:
            if o in ("op",):
                if a & b == 0:
                    out.add(a | b)
            elif o == "rp":
                full = (1 << s.n) - 1
                if a | b == full:
                    out.add(a & b)
            elif s.general:
                ga, gb = popcount(a), popcount(b)
                want = {"gp": range(abs(ga - gb), min(ga + gb, s.n) + 1, 2), "lcont": [gb - ga], "rcont": [ga - gb], "dot": [abs(ga - gb)], "hip": [abs(ga - gb)] if ga and gb else [], "sp": [0]}[o]
                out |= {c for c in range(1 << s.n) if popcount(c) in want}
            else:
                c = a ^ b
                ga, gb, gc = popcount(a), popcount(b), popcount(c)
                ok = {"gp": True, "lcont": gc == gb - ga, "rcont": gc == ga - gb, "dot": gc == abs(ga - gb), "hip": bool(ga and gb) and gc == abs(ga - gb), "sp": gc == 0}[o]
                if ok:
                    out.add(c)
    return out


BINARY = ["gp", "gp", "gp", "op", "op", "lcont", "rcont", "dot", "hip", "sp", "rp", "add", "add", "sub", "sub"]
UNARY = ["neg", "reverse", "involute", "conjugate", "scale"]


def grow(rng, s, leaves, depth, limit, mtr="MTR", binary=BINARY):
    """A random tree of at most the given depth over the leaves."""
    if depth == 0 or rng.random() < .1:
        return rng.choice(leaves)
    if rng.random() < .25:
        x = grow(rng, s, leaves, depth - 1, limit, mtr, binary)
        u = rng.choice(UNARY)
        if u == "neg":
            return Tree("(-%s)" % x.g, "(-%s)" % x.r, x.support, x.terms, x.bound, "-(%s)" % x.text)
        if u == "scale":
            k = rng.choice([-2, -1, 2, 3])
            if rng.random() < .5:
                return Tree("(ga::c<%d> * %s)" % (k, x.g), "(%d * %s)" % (k, x.r), x.support, x.terms, "%d * %s" % (abs(k), x.bound), "<%d>*(%s)" % (k, x.text))
            return Tree("(%s * ga::c<%d>)" % (x.g, k), "(%d * %s)" % (k, x.r), x.support, x.terms, "%d * %s" % (abs(k), x.bound), "(%s)*<%d>" % (x.text, k))
        return Tree("ga::%s(%s)" % (u, x.g), "ref::%s(%s)" % (u, x.r), x.support, x.terms, x.bound, "%s(%s)" % (u, x.text))
    for _ in range(20):
        x, y = grow(rng, s, leaves, depth - 1, limit, mtr, binary), grow(rng, s, leaves, depth - 1, limit, mtr, binary)
        o = rng.choice(binary)
        if o in ("add", "sub"):
            c = "+" if o == "add" else "-"
            t = x.terms + y.terms
            if t <= limit:
                return Tree("(%s %s %s)" % (x.g, c, y.g), "(%s %s %s)" % (x.r, c, y.r), x.support | y.support, t, "(%s + %s)" % (x.bound, y.bound), "(%s %s %s)" % (x.text, c, y.text))
            continue
        sup = op_support(s, o, x.support, y.support)
        t = x.terms * y.terms
        if t > limit or not sup and rng.random() < .9:
            continue
        m = "" if o in ("op", "rp") else "M, "
        return Tree("ga::%s(%s, %s, %s)" % (o, x.g, y.g, mtr), "ref::%s(%s%s, %s)" % (o, m, x.r, y.r), sup, t, "%s * %s" % (x.bound, y.bound), "%s(%s, %s)" % (o, x.text, y.text))
    return rng.choice(leaves)


def leaf(p, a, support, g=None):
    return Tree(g or a.g, a.r, support, max(a.size, 1), "ref::n1(%s)" % a.r, a.text)


def operand_support(p, rng, kinds, limit, **kw):
    """An operand together with the blades it may contain."""
    n = p.n
    while True:
        k = rng.choice(kinds)
        pool = None
        if k in ("cblade", "cterm", "qterm", "rterm", "sbb"):
            pool = [rng.randrange(1 << n)]
        elif k in ("sum", "csum", "mixsum"):
            m = rng.randint(2, min(limit, 1 << n)) if min(limit, 1 << n) >= 2 else None
            if m is None:
                continue
            pool = sorted(rng.sample(range(1 << n), m))
            kw = dict(kw, terms=m)
        elif k == "scalar" or k == "const":
            pool = [0]
        elif k == "vec":
            pool = [1 << i for i in range(n)]
        elif k == "cvector":
            i = rng.randrange(n)
            a = p.declare("ga::e(ga::c<%d>)" % (i + 1), p.mv([(1 << i, 1)]), "e(c<%d>)" % (i + 1), 1)
            a.kind = k
            return a, {1 << i}
        if k == "vec" and n > limit:
            continue
        a = p.operand(rng, k, blades=pool, **({"terms": kw["terms"]} if "terms" in kw else {}))
        a.kind = k
        return a, set(pool)


@prop("P05", assumptions=["expressions of at most 40 products of coefficients, over two to four operands with at most 3 components each"])
def p05(rng, scale):
    kinds = ["scalar", "const", "cblade", "cvector", "cterm", "rterm", "sbb", "sum", "csum", "mixsum", "vec", "qterm"]

    def mk():
        s = any_space(rng, 6)
        p = Program(s)
        p.emit("static ref::Metric const M = %s;" % s.ref)
        p.emit("auto const MTR = %s;" % s.cpp)
        k = rng.choice([1, 2, 2, 3, 3, 4])
        ls, names, texts = [], [], []
        rat = False
        for i in range(k):
            a, sup = operand_support(p, rng, kinds, 3)
            rat |= a.kind in RATIONAL
            t = leaf(p, a, sup)
            t.text = "abcd"[i]
            ls.append(t)
            names.append(a.g)
            texts.append("%s = %s" % ("abcd"[i], a.text))
        for _ in range(30):
            t = grow(rng, s, ls, rng.choice([2, 3, 3, 4]), 40)
            if t not in ls and t.support:
                break
        else:
            return None
        used = [i for i in range(k) if names[i] in t.g]
        if len(used) > 1 and rng.random() < .3:
            out = rng.choice(used)      # an operand that the lazy expression stores itself
            used.remove(out)
            texts[out] += " (not a lazy argument)"
        lz = t.g
        args = {}
        for i in used:
            args[names[i]] = "z%d" % i
            lz = replace_name(lz, names[i], "z%d" % i)
        p.emit("ref::MV const want = %s;" % t.r)
        p.emit("auto const now = %s;" % t.g)
        p.emit('cx.eq(%s, want, "evaluated step by step", VT_REL, %s);' % (dense(p.n, "now", rat), t.bound))
        p.emit("auto const [lz, %s] = ga::make_lazy_context_tuple(%s);" % (", ".join("z%d" % i for i in used), ", ".join(names[i] for i in used)))
        p.emit("auto const later = lz.eval(%s);" % lz)
        p.emit('cx.eq(%s, want, "evaluated lazily", VT_REL, %s);' % (dense(p.n, "later", rat), t.bound))
        return finish(p, "%s: %s with %s" % (s.name, t.text, ", ".join(texts)), 1.0 + .08 * t.terms * (2 if s.general else 1))
    def runtime():
        """Products of single components, some of them run-time basis blades, through functions called in the context."""
        s = orth_space(rng, 6)
        p = Program(s)
        n = s.n
        p.emit("static ref::Metric const M = %s;" % s.ref)
        p.emit("auto const MTR = %s;" % s.cpp)
        k = rng.choice([2, 2, 3, 3])
        ts, names, texts = [], [], []
        for i in range(k):
            w = rng.random()
            a = p.operand(rng, "dyn_u" if w < (.6 if i == 0 else .35) else rng.choice(KINDS_DYN) if i == 0 or w < .6 else rng.choice([q for q in SINGLE if q != "native"]))
            ts.append((a.g, a.r, "abc"[i]))
            names.append(a.g)
            texts.append("%s = %s" % ("abc"[i], a.text))
        unary = [("ga::reverse(%s)", "ref::reverse(%s)", "reverse(%s)"), ("ga::involute(%s)", "ref::involute(%s)", "involute(%s)"), ("ga::conjugate(%s)", "ref::conjugate(%s)", "conjugate(%s)"), ("(-%s)", "(-1 * %s)", "-%s"), ("(ga::c<2> * %s)", "(2 * %s)", "2 * %s"), ("(~%s)", "ref::reverse(%s)", "~%s")]

        def dress(t):
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                f = rng.choice(unary)
                t = tuple(x % y for x, y in zip(f, t))
            return t
        t = dress(rng.choice(ts[:1]))
        for i in range(rng.choice([1, 2, 2, 3])):
            u = dress(ts[i + 1] if i + 1 < k else rng.choice(ts))
            o = rng.choice(["op", "op", "gp", "gp", "gp", "lcont", "rcont", "dot", "hip", "sp", "rp"])
            l, r = (t, u) if rng.random() < .5 else (u, t)
            t = dress(("ga::%s(%s, %s, MTR)" % (o, l[0], r[0]), "ref::%s(%s%s, %s)" % (o, "" if o in ("op", "rp") else "M, ", l[1], r[1]), "%s(%s, %s)" % (o, l[2], r[2])))
        used = [i for i in range(k) if re.search(r"\b%s\b" % re.escape(names[i]), t[0])]
        rng.shuffle(used)
        if len(used) > 1 and rng.random() < .2:
            texts[used.pop()] += " (not a lazy argument)"
        lz = t[0]
        for i in used:
            lz = replace_name(lz, names[i], "z%d" % i)
        p.emit("ref::MV const want = %s;" % t[1])
        p.emit("auto const now = %s;" % t[0])
        p.emit('cx.eq(%s, want, "evaluated step by step", VT_REL, 1 + want.maxabs());' % dense(n, "now"))
        p.emit("auto const [lz, %s] = ga::make_lazy_context_tuple(%s);" % (", ".join("z%d" % i for i in used), ", ".join(names[i] for i in used)))
        p.emit("auto const later = lz.eval(%s);" % lz)
        p.emit('cx.eq(%s, want, "evaluated lazily", VT_REL, 1 + want.maxabs());' % dense(n, "later"))
        return finish(p, "%s: %s with %s" % (s.name, t[2], ", ".join(texts)), .8)
    return unique(mk, int(230 * scale)) + unique(runtime, int(90 * scale))


def replace_name(s, old, new):
    import re
    return re.sub(r"\b%s\b" % re.escape(old), new, s)


@prop("P06", assumptions=["sums and differences of up to six terms, some of them equal, opposite or zero"])
def p06(rng, scale):
    kinds = ["scalar", "const", "cblade", "cvector", "cterm", "rterm", "sbb", "sum", "csum", "mixsum", "vec", "qterm", "kvec", "fmv", "mv", "native"]

    def mk():
        s = orth_space(rng, 6)
        p = Program(s)
        n = s.n
        m = rng.choice([2, 2, 3, 3, 4])
        ops, rat, size = [], False, 0
        pool = rng.sample(range(1 << n), min(1 << n, rng.randint(1, 3))) if rng.random() < .6 else None
        few = rng.choice([kinds, ["qterm", "qterm", "cterm", "rterm", "csum"], ["qterm", "csum", "mixsum", "cblade"]]) if pool else kinds
        for i in range(m):
            while True:
                q = rng.choice(kinds_for(n, few))
                if q == "native" and (i == 0 or any(o.kind == "native" for o in ops)):
                    continue
                if q in ("mv", "fmv", "kvec") and n > 4:
                    continue
                break
            a = p.operand(rng, q, blades=pool)
            a.kind = q
            rat |= q in RATIONAL
            ops.append(a)
            size += a.size
        if size > 40:
            return None
        seq = [rng.choice(ops) for _ in range(rng.randint(2, 6))]
        if all(o.kind == "native" for o in seq[:2]):
            return None
        g = r = t = None
        for o in seq:
            og, orf = o.g, o.r
            w = rng.random()
            if o.kind != "native":
                if w < .1:
                    og, orf = "(-%s)" % og, "(-%s)" % orf
                elif w < .15:
                    og = "(+%s)" % og
                elif w < .3:
                    k = rng.choice([-2, -1, 0, 1, 2, 3])
                    og, orf = "(ga::c<%d> * %s)" % (k, og), "(%d * %s)" % (k, orf)
            if g is None:
                g, r, t = og, orf, o.text
            else:
                c = rng.choice("+-")
                if rng.random() < .2:
                    g, r = "(%s %s %s)" % (og, c, g), "(%s %s %s)" % (orf, c, r)
                    t = "%s %s (%s)" % (o.text, c, t)
                else:
                    g, r = "(%s %s %s)" % (g, c, og), "(%s %s %s)" % (r, c, orf)
                    t = "(%s) %s %s" % (t, c, o.text)
        p.emit("auto const sum = %s;" % g)
        p.emit('cx.eq(%s, %s, "sum", VT_REL, %s);' % (dense(n, "sum", rat), r, " + ".join("3*ref::n1(%s)" % o.r for o in ops)))
        return finish(p, "dimension %d: %s as %s" % (n, t, g), .5 + .02 * size * len(seq))
    return unique(mk, int(300 * scale))


SINGLE = ["const", "scalar", "cblade", "cvector", "cterm", "rterm", "sbb", "native"]


@prop("P07", assumptions=["a runtime-indexed basis blade is combined with operands of one component, in orthogonal metrics (the library supports no more)"])
def p07(rng, scale):
    def products():
        p, a, b = two(rng, lambda r: orth_space(r, 7), 1, KINDS_DYN, KINDS_DYN + SINGLE)
        if rng.random() < .5:
            a, b = b, a
        n = p.n
        p.emit("static ref::Metric const M = %s;" % p.space.ref)
        os_ = rng.sample(METRIC_OPS + ["op", "rp"], 3)
        for o in os_:
            g = p.fresh("g")
            p.emit("auto const %s = ga::%s(%s, %s, %s);" % (g, o, a.g, b.g, p.space.cpp))
            p.emit('cx.eq(%s, ref::%s(%s%s, %s), "%s", VT_REL, %s);' % (dense(n, g), o, "" if o in ("op", "rp") else "M, ", a.r, b.r, o, norm_scale(a.r, b.r)))
        return finish(p, "%s: %s(%s, %s)" % (p.space.name, "/".join(os_), a.text, b.text), .9)

    def unary():
        p, a = one(rng, lambda r: orth_space(r, 8), 1, KINDS_DYN)
        n = p.n
        p.emit("static ref::Metric const M = %s;" % p.space.ref)
        os_ = rng.sample(["reverse", "involute", "conjugate", "neg", "plus", "tilde", "scale", "rnorm_sqr", "inv", "take", "grade"], 3)
        for o in os_:
            g = p.fresh("g")
            if o in ("reverse", "involute", "conjugate"):
                p.emit("auto const %s = ga::%s(%s);" % (g, o, a.g))
                want = "ref::%s(%s)" % (o, a.r)
            elif o == "neg":
                p.emit("auto const %s = -%s;" % (g, a.g))
                want = "-" + a.r
            elif o == "plus":
                p.emit("auto const %s = +%s;" % (g, a.g))
                want = a.r
            elif o == "tilde":
                p.emit("auto const %s = ~%s;" % (g, a.g))
                want = "ref::reverse(%s)" % a.r
            elif o == "scale":
                x = p.num()
                p.emit("auto const %s = %s * %s;" % (g, x, a.g))
                want = "(ref::R(%s) * %s)" % (x, a.r)
            elif o == "rnorm_sqr":
                p.emit("auto const %s = ga::rnorm_sqr(%s, %s);" % (g, a.g, p.space.cpp))
                want = "ref::scalar(%d, ref::rnorm_sqr(M, %s))" % (n, a.r)
            elif o == "inv":
                p.emit("if (ref::rnorm_sqr(M, %s) != 0) {" % a.r)
                p.emit("auto const %s = ga::inv(%s, %s);" % (g, a.g, p.space.cpp))
                want = "ref::inv(M, %s)" % a.r
            elif o == "take":
                k = rng.randint(0, n)
                p.emit("auto const %s = ga::take_grade(%s, ga::c<%d>);" % (g, a.g, k))
                want = "ref::take(%s, %d)" % (a.r, k)
            elif o == "grade":
                p.emit("ga::grade_t const %s = ga::grade(%s);" % (g, a.g))
                p.emit('{ int const w = ref::topgrade(%s, 1e-8L); cx.eqs(%s, w < 0 ? -2 : w, "grade"); }' % (a.r, g))
                continue
            p.emit('cx.eq(%s, %s, "%s", VT_REL, ref::n1(%s));' % (dense(n, g), want, o, a.r))
            if o == "inv":
                p.emit("}")
        return finish(p, "%s: %s of %s" % (p.space.name, "/".join(os_), a.text), .6)
    return unique(products, int(150 * scale)) + unique(unary, int(90 * scale)) + unique(lambda: wide(rng, "runtime"), int(20 * scale))
