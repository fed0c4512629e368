"""Generators: meet and join, projections, geometry of the models, constructors, conversions, output, memory, configuration."""
import itertools

from props2 import *
import props


# ---------------------------------------------------------------------------------------------------------------------
# Meet, join, plunge.

def blade_type(rng, n, budget, grade=None):
    """(fixed basis vectors, free basis vectors, how many factors among the free ones, number of components)."""
    while True:
        fixed = sum(1 << i for i in range(n) if rng.random() < (.2 if n <= 3 else .35))
        free = ((1 << n) - 1) ^ fixed
        if n > 3:
            free &= rng.randrange(1 << n)
        m = popcount(free)
        k = rng.randint(0, m)
        size = len(list(itertools.combinations(range(m), k)))
        g = k + popcount(fixed)
        if size <= budget and g > 0 and grade in (None, g):
            return fixed, free, k, size


def wedge_operand(p, rng, budget, other=None, full=False, shape=None, grade=None, roomy=False):
    """A blade made of generated factors; returns the operand with .rows, the name of its factors in the program."""
    n = p.n
    fixed, free, k, size = blade_type(rng, n, budget, grade)
    if shape is not None and grade in (None, shape[2] + popcount(shape[0])):
        fixed, free, k, size = shape
    elif other is not None and grade in (None, other.grade) and rng.random() < .35:
        fixed, free, k, size = other.shape
    g = k + popcount(fixed)
    rows, r, v = p.fresh("w"), p.fresh("r"), p.fresh("a")
    p.emit("vt::Rows const %s = vt::with_basis(vt::rows(cx, %d, %d, %d%s), %d, %d);" % (rows, n, free, k, ", &" + other.rows if other is not None else "", n, fixed))
    p.emit("ref::MV const %s = ref::wedge_all(%d, %s);" % (r, n, rows))
    fb = [1 << (i - 1) for i in bits(free)]
    support = sorted(fixed | sum(c) for c in itertools.combinations(fb, k))
    spare = [b for b in range(1, 1 << n) if popcount(b) != g] if roomy and size < 3 and n <= 4 else []
    if spare:
        # A type with room for blades of other grades, which this one has not.
        ahead = [b for b in spare if b < min(support) and popcount(b) > g]
        b0 = rng.choice(ahead if ahead and rng.random() < .7 else spare)
        p.emit("double const %s_none = cx.draw(0, 0);" % v)
        p.emit("auto const %s = %s;" % (v, " + ".join("double(%s[%d]) * %s" % (r, b, bb(b)) for b in support) + " + %s_none * %s" % (v, bb(b0))))
        text, size = " + ".join("r*<%s>" % bname(b) for b in support) + " + none*<%s>" % bname(b0), size + 1
    elif (n <= 3 or full) and rng.random() < .5 and g > 0:
        p.emit("auto const %s = vt::from<ga::full_kvector_t<double,%d,%d> >(%s);" % (v, n, g, r))
        text = "full_kvector<%d>" % g
    else:
        p.emit("auto const %s = %s;" % (v, " + ".join("double(%s[%d]) * %s" % (r, b, bb(b)) for b in support)))
        text = " + ".join("r*<%s>" % bname(b) for b in support)
    p.emit('cx.input("%s", %s);' % (v, r))
    o = Operand(v, r, text + " (blade)", size)
    o.rows, o.shape, o.grade = rows, (fixed, free, k, size), g
    o.kind = "sum"
    return o


def meet_space(rng):
    return rng.choice([euclidean(2), euclidean(3), euclidean(3), euclidean(3), homogeneous(2), homogeneous(2), plane_based(2), minkowski(1), conformal(1), euclidean(4), euclidean(4), homogeneous(3), minkowski(2), conformal(2), plane_based(3), euclidean(5)])


@prop("P15", assumptions=["blades with run-time coefficients that are wedges of vectors with small integer coordinates, in up to five dimensions (the compiler's work limits the number of components)", "plunges where the join has an inverse in the metric"])
def p15(rng, scale):
    def call(p, f, a, b, w, s):
        tol = ""
        t = rng.random()
        if t < .15:
            tol = ", 1e-7"
        elif t < .25:
            tol = ", ga::scalar(1e-9)"
        if s.ns and rng.random() < .5:
            return "%s::%s(%s, %s%s)" % (s.ns, f, a.g, b.g, tol)
        return "ga::%s(%s, %s%s, %s)" % (f, a.g, b.g, tol, s.cpp)

    cells = {}

    def grades(proper):
        """Every pair of grades in two to four dimensions, and some in five."""
        if not cells.get(proper):
            cells[proper] = [(n, a, b) for n in (2, 3, 4) for a in range(1, n + (not proper)) for b in range(1, n + (not proper))]
            cells[proper] += [(4, 2, 2), (4, 2, 2)]
            cells[proper] += rng.sample([(5, a, b) for a in range(1, 5 + (not proper)) for b in range(1, 5 + (not proper))], 4)
            rng.shuffle(cells[proper])
        return cells[proper].pop()

    def operands(proper=False, room=False):
        want = grades(proper)
        while True:
            s = meet_space(rng)
            if s.n != want[0]:
                continue
            p = Program(s)
            budget = 3 if s.n <= 3 else 2
            shape = None
            if s.n > 3 and rng.random() < .5:
                # Blades that share an oblique direction: the interesting cases need more than three dimensions.
                i, j = (0, 1) if rng.random() < .6 else rng.sample(range(s.n), 2)
                fixed = sum(1 << k for k in rng.sample([k for k in range(s.n) if k not in (i, j)], rng.choice([0, 1, 1, 1, s.n - 3])))
                shape = fixed, 1 << i | 1 << j, 1, 2
            roomy = rng.choice([0, 1]) if room and rng.random() < .4 else None   # meet_and_join takes blades of one grade at compile time
            a = wedge_operand(p, rng, budget, shape=shape, grade=want[1], roomy=roomy == 0)
            if shape and rng.random() < .6:
                shape_b = shape
            else:
                shape_b = None
                if want[1] + want[2] <= s.n and rng.random() < .5:
                    # Blades that have nothing in common, in general.
                    fixed, free = a.shape[:2]
                    for _ in range(200):
                        t = blade_type(rng, s.n, budget, want[2])
                        if t[0] & fixed == 0 and popcount(t[0] | t[1] | fixed | free) >= want[1] + want[2] and (t[1] & free == 0 or popcount(t[1] | free) > 1):
                            shape_b = t
                            break
            b = wedge_operand(p, rng, budget, a, shape=shape_b, grade=want[2], roomy=roomy == 1)
            break
        p.emit("[[maybe_unused]] ref::Metric const E = ref::sig(%d, 0, 0);" % s.n)
        p.emit("bool const none = %s.maxabs() == 0 || %s.maxabs() == 0;" % (a.r, b.r))
        return s, p, a, b

    def lines(p, a, b, j, m):
        """The join and the meet are what they are as subspaces."""
        n = p.n
        p.emit("if (none) {")
        if j:
            p.emit('  cx.eq(%s, ref::MV(%d), "join with nothing");' % (j, n))
        if m:
            p.emit('  cx.eq(%s, ref::MV(%d), "meet with nothing");' % (m, n))
        p.emit("} else {")
        p.emit("  cx.nontrivial();")
        if j:
            p.emit('  ref::MV const wj = ref::span_union(%d, %s, %s);' % (n, a.rows, b.rows))
            p.emit('  cx.require(ref::proportional(%s, wj, 1e-7L), "the join is not the smallest subspace with both", ref::show(%s) + " where the join is " + ref::show(wj));' % (j, j))
        if m:
            p.emit('  ref::MV const wm = ref::span_meet(%d, %s, %s);' % (n, a.rows, b.rows))
            p.emit('  cx.require(ref::proportional(%s, wm, 1e-7L), "the meet is not the largest common subspace", ref::show(%s) + " where the meet is " + ref::show(wm));' % (m, m))
        p.emit("}")

    def meet():
        s, p, a, b = operands()
        n = s.n
        p.emit("auto const [m0, j0] = %s;" % call(p, "meet_and_join", a, b, 0, s))
        p.emit("ref::MV const m = vt::D(%d, m0), j = vt::D(%d, j0);" % (n, n))
        lines(p, a, b, "j", "m")
        x, y = (a, b) if a.grade <= b.grade else (b, a)
        p.emit("if (!none) {")
        p.emit("  int const gj = ref::topgrade(j, 1e-9L);")
        p.emit("  ref::R const sign = %s && ((gj - %d) * (gj - %d)) %% 2 != 0 ? -1 : 1;" % ("true" if a.grade > b.grade else "false", a.grade, b.grade))
        p.emit("  ref::MV const m1 = sign * m, j1 = sign * j;")
        p.emit('  cx.eq(ref::op(ref::rcont(E, %s, ref::inv(E, m1)), %s), j1, "join from the meet", 1e-7, ref::n1(j1));' % (x.r, y.r))
        p.emit('  cx.eq(ref::lcont(E, ref::lcont(E, %s, ref::inv(E, j1)), %s), m1, "meet from the join", 1e-7, ref::n1(m1));' % (y.r, x.r))
        p.emit("}")
        if a.grade != b.grade and (n <= 3 or rng.random() < .5):
            # Exchanging blades of different grades only turns the orientation of both results, and in which case the grades tell.
            p.emit("auto const [m2, j2] = %s;" % call(p, "meet_and_join", b, a, 0, s))
            p.emit("if (!none) {")
            p.emit("  int const gj = ref::topgrade(j, 1e-9L);")
            p.emit("  ref::R const turn = (gj - %d) * (gj - %d) %% 2 != 0 ? -1 : 1;" % (a.grade, b.grade))
            p.emit('  cx.eq(vt::D(%d, m2), turn * m, "meet of the exchanged blades", 1e-7, ref::n1(m));' % n)
            p.emit('  cx.eq(vt::D(%d, j2), turn * j, "join of the exchanged blades", 1e-7, ref::n1(j));' % n)
            p.emit("}")
        return finish(p, "%s: meet_and_join(%s, %s)" % (s.name, a.text, b.text), 3.0 if n <= 3 else 4.0)

    def fast():
        s, p, a, b = operands(True, True)
        n = s.n
        if rng.random() < .5:
            p.emit("auto const [m0, j0] = %s;" % call(p, "fast_meet_and_join", a, b, 0, s))
            p.emit("ref::MV const j = vt::D(%d, j0);" % n)
            p.emit("ref::MV const m = none ? ref::MV(%d) : vt::D(%d, m0);" % (n, n))
            lines(p, a, b, "j", "m")
            # J carries no scale of its own: it is a unit, and the meet follows from it.
            p.emit('if (!none) cx.eq(ref::lcont(E, ref::lcont(E, %s, ref::inv(E, j)), %s), m, "meet from the join", 1e-7, ref::n1(m));' % (b.r, a.r))
        else:
            p.emit("auto const j0 = %s;" % call(p, "fast_join", a, b, 0, s))
            p.emit("ref::MV const j = vt::D(%d, j0);" % n)
            lines(p, a, b, "j", None)
        p.emit('if (!none) cx.eqs(ref::rnorm_sqr(E, j), 1, "norm of the join", 1e-8);')
        if a.grade != b.grade:
            p.emit("auto const j2 = %s;" % call(p, "fast_join", b, a, 0, s))
            p.emit('if (!none) cx.eq(vt::D(%d, j2), %s1 * j, "join of the exchanged blades", 1e-7);' % (n, "-" if a.grade * b.grade % 2 else ""))
        return finish(p, "%s: fast join of (%s, %s)" % (s.name, a.text, b.text), 2.0)

    def roomy():
        """Equal blades, one of a type that begins with a blade of higher grade."""
        s = rng.choice([euclidean(3), homogeneous(2), minkowski(1), plane_based(2), euclidean(4)])
        p = Program(s)
        n = s.n
        top = 1 << (n - 1)
        shape = top | (rng.choice([0, 1, 2]) if n > 3 else 0), 0, 0, 1
        g = popcount(shape[0])
        x = wedge_operand(p, rng, 3, shape=shape, grade=g, roomy=True)
        y = wedge_operand(p, rng, 3, x, shape=shape, grade=g)
        a, b = (x, y) if rng.random() < .5 else (y, x)
        p.emit("[[maybe_unused]] ref::Metric const E = ref::sig(%d, 0, 0);" % n)
        p.emit("bool const none = false;")
        p.emit("ref::MV const j = vt::D(%d, %s);" % (n, call(p, "fast_join", a, b, 0, s)))
        lines(p, a, b, "j", None)
        return finish(p, "%s: fast join of (%s, %s), one kept with room for others" % (s.name, a.text, b.text), 1.5)

    def plunge():
        while True:
            s, p, a, b = operands(True)
            if s.n <= 3:
                break
        n = s.n
        f = rng.choice([("plunge", "meet_and_join"), ("fast_plunge", "fast_meet_and_join")])
        p.emit("static ref::Metric const M = %s;" % s.ref)
        p.emit("cx.assume(!none);")
        p.emit("ref::MV const u = ref::span_union(%d, %s, %s);" % (n, a.rows, b.rows))
        p.emit("cx.assume(std::fabs(ref::rnorm_sqr(M, u)) >= 0.01L * ref::n1(u) * ref::n1(u));")
        p.emit("ref::MV const j = vt::D(%d, std::get<1>(ga::%s(%s, %s, %s)));" % (n, f[1], a.g, b.g, s.cpp))
        p.emit("auto const g = %s;" % call(p, f[0], a, b, 0, s))
        p.emit('cx.eq(vt::D(%d, g), ref::op(ref::dual(M, %s, j), ref::dual(M, %s, j)), "plunge", 1e-7, ref::n1(%s) * ref::n1(%s) / std::fabs(ref::rnorm_sqr(M, j)));' % (n, b.r, a.r, a.r, b.r))
        return finish(p, "%s: %s(%s, %s)" % (s.name, f[0], a.text, b.text), 3.5)
    return unique(meet, int(46 * scale)) + unique(fast, int(50 * scale)) + unique(plunge, int(24 * scale)) + unique(roomy, int(4 * scale))


# ---------------------------------------------------------------------------------------------------------------------
# Projection and rejection.

def call_with_space(rng, s, f, args, lazy_ok=True):
    if s.ns and rng.random() < .5:
        return "%s::%s(%s)" % (s.ns, f, ", ".join(args))
    return "ga::%s(%s, %s)" % (f, ", ".join(args), s.cpp)


@prop("P16", assumptions=["the blade that is projected onto is a wedge of vectors with small integer coordinates and is not null"])
def p16(rng, scale):
    def mk():
        while True:
            s = euclidean(rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5]))
            p = Program(s)
            a = p.operand(rng, rng.choice([k for k in kinds_for(s.n) if k not in ("native", "qterm", "csum")]))
            b = wedge_operand(p, rng, 3 if s.n <= 4 else 2)
            if a.size * b.size * b.size <= 40 and b.grade > 0:
                break
        n = s.n
        p.emit("cx.assume(%s.maxabs() != 0);" % b.r)
        p.emit("ref::MV const w = geo::project(%s, %s);" % (a.r, b.rows))
        what = rng.choice(["project", "project", "reject", "both"])
        rat = True
        if what in ("project", "both"):
            p.emit("auto const g = %s;" % call_with_space(rng, s, "project", [a.g, b.g]))
            p.emit('cx.eq(%s, w, "projection", VT_REL, ref::n1(%s) * 4);' % (dense(n, "g", rat), a.r))
        if what in ("reject", "both"):
            p.emit("auto const h = %s;" % call_with_space(rng, s, "reject", [a.g, b.g]))
            p.emit('cx.eq(%s, %s - w, "rejection", VT_REL, ref::n1(%s) * 4);' % (dense(n, "h", rat), a.r, a.r))
        return finish(p, "%s: %s of %s, %s" % (s.name, what, a.text, b.text), .5 + .1 * a.size * b.size)

    def lazily():
        """In a lazy context of the caller."""
        while True:
            s = euclidean(rng.choice([2, 3, 3]))
            p = Program(s)
            a = p.operand(rng, rng.choice(["rterm", "sum", "vec", "kvec", "cblade", "scalar"]))
            b = wedge_operand(p, rng, 3)
            if a.size * b.size * b.size <= 20 and b.grade > 0:
                break
        p.emit("cx.assume(%s.maxabs() != 0);" % b.r)
        f = rng.choice(["project", "reject"])
        p.emit("auto const g = %s;" % in_lazy(p, [a.g, b.g], lambda x, y: "ga::%s(%s, %s, %s)" % (f, x, y, s.cpp)))
        p.emit("ref::MV const w = geo::project(%s, %s);" % (a.r, b.rows))
        p.emit('cx.eq(%s, %s, "%s, in a lazy context", VT_REL, ref::n1(%s) * 4);' % (dense(s.n, "g", True), "w" if f == "project" else "%s - w" % a.r, f, a.r))
        return finish(p, "%s: lazy %s of %s, %s" % (s.name, f, a.text, b.text), .7 + .1 * a.size * b.size)
    return unique(mk, int(120 * scale)) + unique(lazily, int(20 * scale))


# ---------------------------------------------------------------------------------------------------------------------
# Flats of the homogeneous model.

def vec_text(x, k):
    return "geo::Vec{%s}" % ", ".join(x)


def coords(p, rng, d, zero=.3, how="num"):
    """Coordinates of a point or vector: (C++ expressions for GATL, for the model, mask of those that may be non-zero)."""
    g, r, m = [], [], 0
    for i in range(d):
        w = rng.random()
        if w < zero:
            g.append("ga::c<0>")
            r.append("0")
        elif w < zero + .12:
            k = rng.choice([-2, -1, 1, 2, 3])
            g.append("ga::c<%d>" % k)
            r.append(str(k))
            m |= 1 << i
        else:
            x = p.num(how)
            p.emit('cx.input("%s", %s);' % (x, x))
            g.append(x)
            r.append(x)
            m |= 1 << i
    return g, r, m


def arith(s, name, xs):
    """A call of the constructor of points or vectors of a model."""
    return "%s::%s(%s)" % (s.ns, name, ", ".join("+" + x if x[0] == "x" else x for x in xs))


def sparse(p, rng, model, support, grade=None, full=.35):
    """A GATL variable with the value of the model variable, stored in the components of the support."""
    n, v = p.n, p.fresh("a")
    if grade is not None and rng.random() < full and len(list(itertools.combinations(range(n), grade))) <= len(support) + 3:
        p.emit("auto const %s = vt::from<ga::full_kvector_t<double,%d,%d> >(%s);" % (v, n, grade, model))
        text = "full_kvector<%d>" % grade
    else:
        p.emit("auto const %s = %s;" % (v, " + ".join("double(%s[%d]) * %s" % (model, b, bb(b)) for b in sorted(support))))
        text = " + ".join("<%s>" % bname(b) for b in sorted(support))
    p.emit('cx.input("%s", %s);' % (v, model))
    return v, text


def wedge_support(*vs):
    """Basis blades that the wedge of vectors (given by the sets of their basis vectors) may have."""
    r = {0}
    for v in vs:
        r = {x | y for x in r for y in v if not x & y}
    return r


@prop("P17", assumptions=["flats that have a direction (for the support) and whose coordinates are small exact numbers"])
def p17(rng, scale):
    OPS = ["flat_direction", "flat_moment", "flat_support_vector", "flat_unit_support_point", "translate"]

    def check(p, rng, s, d, F, ops, ideal, weight="1"):
        """Checks on the GATL flat F made of the model's point c and directions rows, times a weight."""
        for f in ops:
            v = p.fresh("g")
            if f == "translate":
                g, r, m = coords(p, rng, d)
                if m == 0 and rng.random() < .8:
                    g, r, m = coords(p, rng, d, .1)
                t = p.fresh("t")
                p.emit("auto const %s = %s;" % (t, arith(s, "euclidean_vector", g)))
                p.emit("auto const %s = %s;" % (v, call_with_space(rng, s, f, [t, F])))
                p.emit("{ ref::MV const w = W * ref::op(%s, H.direction(rows)); cx.eq(%s, w, \"translated flat\", VT_REL, ref::n1(w)); }" % ("H.vec(c)" if ideal else "H.point(geo::plus(c, geo::Vec{%s}))" % ", ".join(r), dense(s.n, v, True)))
                continue
            p.emit("auto const %s = %s;" % (v, call_with_space(rng, s, f, [F])))
            if f == "flat_direction":
                w = "ref::MV(%d)" % s.n if ideal else "W * H.direction(rows)"
            elif f == "flat_moment":
                w = "W * ref::op(H.vec(c), H.direction(rows))"
            else:
                w = "H.vec(geo::minus(c, geo::projected(c, rows)))"
                if f == "flat_unit_support_point":
                    w = "H.point(geo::minus(c, geo::projected(c, rows)))"
            p.emit("{ ref::MV const w = %s; cx.eq(%s, w, \"%s\", VT_REL, 1 + geo::dotp(c, c)); }" % (w, dense(s.n, v, True), f))

    def mk():
        d = rng.choice([1, 2, 2, 3, 3, 4])
        s = homogeneous(d)
        p = Program(s)
        k = rng.randint(0, d)
        ideal = rng.random() < .12 and k < d
        g, r, cm = coords(p, rng, d)
        mask = (1 << d) - 1
        if rng.random() < .6:
            mask = rng.choice([m for m in range(1 << d) if popcount(m) >= k])
        support = wedge_support({1 << i for i in range(d) if cm >> i & 1} | (set() if ideal else {1 << d}), *[{1 << i for i in range(d) if mask >> i & 1}] * k)
        if not support or len(support) > 7:
            return None
        p.emit("static geo::Homogeneous const H(%d);" % d)
        p.emit("geo::Vec const c{%s};" % ", ".join(r))
        p.emit("geo::Vecs const rows = vt::rows(cx, %d, %d, %d);" % (d, mask, k))
        p.emit("cx.assume(H.direction(rows).maxabs() != 0);")
        w = rng.random()
        p.emit("double const W = %s;" % ("1" if w < .3 else "cx.numnz()"))
        p.emit("ref::MV const f = W * ref::op(%s, H.direction(rows));" % ("H.vec(c)" if ideal else "H.point(c)"))
        F, text = sparse(p, rng, "f", support, k + 1)
        ops = ["flat_direction", "flat_moment", "translate"] if ideal else rng.sample(OPS, 2)
        check(p, rng, s, d, F, ops, ideal)
        return finish(p, "%s: %s of a %sflat of dimension %d, %s" % (s.name, ", ".join(ops), "ideal " if ideal else "", k, text), .6 + .12 * len(support))

    def built():
        """Flats built with the library's points and vectors."""
        d = rng.choice([1, 2, 2, 3, 3])
        s = homogeneous(d)
        p = Program(s)
        g, r, m = coords(p, rng, d)
        p.emit("static geo::Homogeneous const H(%d); double const W = 1;" % d)
        p.emit("geo::Vec const c{%s};" % ", ".join(r))
        p.emit("auto const q0 = %s;" % arith(s, "point", g))
        e = "q0"
        vs, masks = [], [{1 << j for j in range(d + 1) if (m | 1 << d) >> j & 1}]
        for i in range(rng.randint(0, min(2, d))):
            gi, ri, mi = coords(p, rng, d, .4)
            if not mi:
                return None
            masks.append({1 << j for j in range(d) if mi >> j & 1})
            if rng.random() < .5:
                p.emit("auto const q%d = %s;" % (i + 1, arith(s, "euclidean_vector", gi)))
                vs.append("geo::Vec{%s}" % ", ".join(ri))
            else:
                p.emit("auto const q%d = %s;" % (i + 1, arith(s, "point", gi)))
                vs.append("geo::minus(geo::Vec{%s}, c)" % ", ".join(ri))
            e = "ga::op(%s, q%d, %s)" % (e, i + 1, s.cpp) if rng.random() < .5 else "(%s ^ q%d)" % (e, i + 1)
        if not wedge_support(*masks):
            return None
        p.emit("geo::Vecs const rows{%s};" % ", ".join(vs))
        p.emit("cx.assume(geo::orthonormal(rows).size() == rows.size());")
        ns = "using namespace %s;" % s.ns
        p.emit("auto const F = [&] { %s return %s; }();" % (ns, e))
        ops = rng.sample(OPS, 2)
        check(p, rng, s, d, "F", ops, False)
        return finish(p, "%s: %s of %s" % (s.name, ", ".join(ops), e), 1.2)
    return unique(mk, int(110 * scale)) + unique(built, int(40 * scale))


# ---------------------------------------------------------------------------------------------------------------------
# Flats, rounds and tangents of the conformal models.

@prop("P18", assumptions=["directions that are not zero, and coordinates that are small exact numbers", "the compiler's work limits the number of components of the operands"])
def p18(rng, scale):
    def dual_support(s, d, support, nulls):
        full = (1 << s.n) - 1
        r = set()
        for b in support:
            if nulls:
                lo = b & ((1 << d) - 1)
                b = lo | (((b >> d & 1) << (d + 1)) | ((b >> (d + 1) & 1) << d))
            r.add(full ^ b)
        return r

    FS = {"flat": ["direction", "location"], "round": ["direction", "location", "size_sqr"], "tangent": ["direction", "location"]}
    # Every function meets objects of every dimension, primal and dual.
    cells = [(nulls, k, kind, dual, f) for nulls in (False, True) for k in range(4) for kind in FS for dual in (False, True) for f in FS[kind]]
    cells += [c for c in cells if c[4] == "size_sqr"]
    rng.shuffle(cells)
    left = []

    def mk():
        if not left:
            left.extend(cells)
        cell = left.pop()
        for _ in range(80):
            q = one_of(*cell)
            if q is not None:
                return q

    def one_of(nulls, k, kind, dual, first):
        d = rng.choice([x for x in [1, 2, 2, 2, 3, 3] if x >= k])
        s = conformal(d) if nulls else minkowski(d)
        p = Program(s)
        g, r, cm = coords(p, rng, d, .4, "half")
        mask = rng.choice([m for m in range(1 << d) if popcount(m) >= k])
        o, i = 1 << d, 2 << d
        ni = {i} if nulls else {o, i}
        moved = {1 << j for j in range(d) if mask >> j & 1} | (ni if mask & cm else set())
        point = {1 << j for j in range(d) if cm >> j & 1} | {o, i}
        support = wedge_support(point, *[moved] * k)
        grade = k + 1
        if kind == "flat":
            support = wedge_support(point, *([moved] * k + [ni]))
            grade = k + 2
        if dual:
            support = dual_support(s, d, support, nulls)
            grade = s.n - grade
        if not support or len(support) > (4 if kind == "round" else 5):
            return None
        p.emit("static geo::Conformal const G(%s, %d);" % ("true" if nulls else "false", d))
        p.emit("geo::Vec const c{%s};" % ", ".join(r))
        p.emit("geo::Vecs const rows = vt::rows(cx, %d, %d, %d);" % (d, mask, k))
        p.emit("cx.assume(G.direction(rows).maxabs() != 0);")
        p.emit("double const W = %s;" % rng.choice(["1", "(cx.flip() ? 1 : -1) * double(cx.draw(1, 6)) / 2"]))
        p.emit("[[maybe_unused]] double const q = %s;" % ("cx.half()" if kind == "round" else "0"))
        m = "G.%s(c, rows%s)" % (kind, ", q" if kind == "round" else "")
        p.emit("ref::MV const f = W * %s;" % ("G.dual(%s)" % m if dual else m))
        F, text = sparse(p, rng, "f", support, grade)
        if not nulls and kind == "round" and "full" in text and math.comb(s.n, grade) > 5:
            return None  # the compiler takes minutes
        fs = [first]
        if len(support) <= 2 and rng.random() < .6:
            fs += rng.sample([f for f in FS[kind] if f != first], 1)
        if kind == "flat" and dual and k == d and "direction" in fs and rng.random() < .5:
            return None
        for f in fs:
            v = p.fresh("g")
            p.emit("auto const %s = %s;" % (v, call_with_space(rng, s, "%s_%s_%s" % ("dual" if dual else "primal", kind, f), [F])))
            if f == "direction":
                w = "W * ref::op(G.direction(rows), G.ni)"
            elif f == "size_sqr":
                w = "ref::scalar(%d, q)" % s.n
            elif kind == "flat":
                # The point of the flat that is nearest the origin, with the coefficient that a flat's location has at infinity.
                p.emit("geo::Vec const near = geo::minus(c, geo::projected(c, rows));")
                w = "G.point(near) + (geo::dotp(near, near) / 2) * G.ni"
            else:
                w = "G.point(c)"
            p.emit("{ ref::MV const w = %s; cx.eq(%s, w, \"%s\", 1e-7, (1 + geo::dotp(c, c)) * (1 + std::fabs(q))); }" % (w, dense(s.n, v, True), f))
        return finish(p, "%s: %s of a %s %s of dimension %d, %s" % (s.name, ", ".join(fs), "dual" if dual else "primal", kind, k, text), 1 + (.25 if s.general else .12) * len(support) ** 2)

    def built():
        """Objects built with the library's points and vectors; distances between points."""
        nulls = rng.random() < .5
        d = rng.choice([1, 2, 2, 3])
        s = conformal(d) if nulls else minkowski(d)
        p = Program(s)
        p.emit("static geo::Conformal const G(%s, %d);" % ("true" if nulls else "false", d))
        p.emit("[[maybe_unused]] geo::Vecs const none;")
        g1, r1, m1 = coords(p, rng, d, .4, "half")
        g2, r2, m2 = coords(p, rng, d, .4, "half")
        if not any(x[0] == "x" for x in g1 + g2):
            return None  # all of it is known at compile time, where degenerate objects are rejected
        p.emit("geo::Vec const a{%s}, b{%s};" % (", ".join(r1), ", ".join(r2)))
        p.emit("geo::Vec const u = geo::minus(b, a);")
        p.emit("auto const A = %s; auto const B = %s;" % (arith(s, "point", g1), arith(s, "point", g2)))
        what = rng.choice(["distance", "distance", "pair", "pair", "line", "line", "dual sphere", "dual sphere", "dual plane", "tangent"])
        ns = "using namespace %s; " % s.ns
        if what == "distance":
            p.emit("auto const g = %s;" % call_with_space(rng, s, rng.choice(["sp", "lcont", "dot"]), ["A", "B"]))
            p.emit('cx.eqs(vt::SQ(g), -geo::dotp(u, u) / 2, "inner product of two points", VT_REL, 1 + geo::dotp(a, a) * geo::dotp(b, b));')
            return finish(p, "%s: distance of point(%s) and point(%s)" % (s.name, ",".join(g1), ",".join(g2)), .8)
        if max(popcount(m1), popcount(m2)) > 2 or what == "dual plane" and not m2:
            return None
        if what == "pair" and not nulls and (popcount(m1 | m2) > 2 or popcount(m1) + popcount(m2) > 3):
            return None  # the compiler takes minutes
        if what == "pair":
            p.emit("cx.assume(geo::dotp(u, u) != 0);")
            p.emit("auto const F = [&] { %sreturn A ^ B; }();" % ns)
            f = rng.choice((["primal_round_location"] if nulls or d == 1 else []) + ["primal_round_size_sqr", "primal_round_direction"])
            w = {"primal_round_location": "[&] { geo::Vec m = geo::plus(a, b); for (auto &x : m) x /= 2; return G.point(m); }()", "primal_round_size_sqr": "ref::scalar(%d, geo::dotp(u, u) / 4)" % s.n, "primal_round_direction": "ref::op(G.vec(u), G.ni)"}[f]
        elif what == "line":
            p.emit("cx.assume(geo::dotp(u, u) != 0);")
            p.emit("auto const F = [&] { %sreturn A ^ B ^ ni; }();" % ns)
            f = rng.choice(["primal_flat_location", "primal_flat_direction"])
            w = {"primal_flat_location": "[&] { geo::Vec const near = geo::minus(a, geo::projected(a, {u})); return G.point(near) + (geo::dotp(near, near) / 2) * G.ni; }()", "primal_flat_direction": "ref::op(G.vec(u), G.ni)"}[f]
        elif what == "dual sphere":
            x = p.num("half")
            p.emit("auto const F = [&] { %sreturn A - (%s / 2) * ni; }();" % (ns, x))
            f = rng.choice(["dual_round_location", "dual_round_size_sqr"])
            w = {"dual_round_location": "G.point(a)", "dual_round_size_sqr": "ref::scalar(%d, %s)" % (s.n, x)}[f]
        elif what == "dual plane":
            x = p.num("half")
            p.emit("cx.assume(geo::dotp(b, b) != 0);")
            p.emit("auto const F = %s + %s;" % (arith(s, "euclidean_vector", g2), "[&] { %sreturn %s * ni; }()" % (ns, x)))
            f = "dual_flat_location"
            w = "[&] { geo::Vec near = b; for (auto &y : near) y *= %s / geo::dotp(b, b); return G.point(near) + (geo::dotp(near, near) / 2) * G.ni; }()" % x
        else:
            p.emit("cx.assume(geo::dotp(b, b) != 0);")
            p.emit("auto const V = %s;" % arith(s, "euclidean_vector", g2))
            p.emit("auto const F = [&] { %sreturn A ^ (V + (A | V) * ni); }();" % ns)
            f = rng.choice(["primal_tangent_location", "primal_tangent_direction"])
            w = {"primal_tangent_location": "G.point(a)", "primal_tangent_direction": "ref::op(G.vec(b), G.ni)"}[f]
            if not m2:
                return None
        p.emit("auto const g = %s;" % call_with_space(rng, s, f, ["F"]))
        p.emit("{ ref::MV const w = %s; cx.eq(%s, w, \"%s\", 1e-7, 1 + geo::dotp(a, a) + geo::dotp(b, b)); }" % (w, dense(s.n, "g", True), f))
        return finish(p, "%s: %s of a %s with point(%s) and point(%s)" % (s.name, f, what, ",".join(g1), ",".join(g2)), 3.0)
    return unique(mk, int(max(110 * scale, min(len(cells), 160 * scale)))) + unique(built, int(50 * scale))
