"""Generation of C++ programs that use GATL's public interface next to the reference model.

An operand is described three times: as C++ source that builds it with GATL, as C++ source that builds the same value in
the reference model from the same generated numbers, and as text for the report.
"""
import itertools


class Space:
    def __init__(self, name, cpp, ref, n, ns=None, general=False, matrix=None):
        self.name, self.cpp, self.ref, self.n, self.ns, self.general = name, cpp, ref, n, ns, general
        self.matrix = matrix

    def norm(self, b):
        """Squared reverse norm of a basis blade (its Gram determinant)."""
        ix = [i - 1 for i in bits(b)]
        return det([[self.matrix[i][j] for j in ix] for i in ix])


def det(m):
    if not m:
        return 1
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)) if m[0][j])


def diag(*d):
    return [[d[i] if i == j else 0 for j in range(len(d))] for i in range(len(d))]


def euclidean(n, ns=True):
    return Space("euclidean<%d>" % n, "ga::euclidean_metric_space<%d>()" % n, "ref::sig(%d,0,0)" % n, n, "ga%de" % n if ns and n <= 5 else None, matrix=diag(*[1] * n))


def homogeneous(d):
    return Space("homogeneous<%d>" % d, "ga::homogeneous_metric_space<%d>()" % d, "ref::sig(%d,0,0)" % (d + 1), d + 1, "ga%dh" % d, matrix=diag(*[1] * (d + 1)))


def plane_based(d):
    return Space("plane_based<%d>" % d, "ga::plane_based_metric_space<%d>()" % d, "ref::sig(%d,0,1)" % d, d + 1, "ga%dp" % d, matrix=diag(*([1] * d + [0])))


def minkowski(d):
    return Space("minkowski<%d>" % d, "ga::minkowski_metric_space<%d>()" % d, "ref::sig(%d,1,0)" % (d + 1), d + 2, "ga%dm" % d, matrix=diag(*([1] * (d + 1) + [-1])))


def conformal(d):
    m = diag(*([1] * d + [0, 0]))
    m[d][d + 1] = m[d + 1][d] = -1
    return Space("conformal<%d>" % d, "ga::conformal_metric_space<%d>()" % d, "ref::conformal(%d)" % d, d + 2, "ga%dc" % d, general=True, matrix=m)


def signed(p, q, r):
    return Space("signed<%d,%d,%d>" % (p, q, r), "ga::signed_metric_space<%d,%d,%d>()" % (p, q, r), "ref::sig(%d,%d,%d)" % (p, q, r), p + q + r, matrix=diag(*([1] * p + [-1] * q + [0] * r)))


def general(n, entries):
    e = ",".join(map(str, entries))
    return Space("general<%s>" % e, "ga::constant_general_metric_space_t<%s>()" % e, "ref::general(%d,{%s})" % (n, e), n, general=True, matrix=[list(entries[i * n:i * n + n]) for i in range(n)])


def random_general(rng, n, lo=-2, hi=2):
    m = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            m[i][j] = m[j][i] = rng.randint(lo, hi)
    return general(n, [x for row in m for x in row])


def bits(b):
    return [i + 1 for i in range(b.bit_length()) if b >> i & 1]


def popcount(b):
    return bin(b).count("1")


def bb(b):
    return "BB<%s>()" % ",".join(map(str, bits(b)))


def bname(b):
    return "^".join("e%d" % i for i in bits(b)) or "1"


def fraction(rng):
    """Numerator and denominator of a compile-time fraction (the library's quotient of two constants may reduce it)."""
    if rng.random() < .4:
        return rng.choice([(1, 2), (3, 4), (-5, 2), (2, 3), (-1, 3), (7, 4)])
    while True:
        p, q = rng.choice([1, 1, 1, -1, -1, 2, -2, 3, -3, 4, 5, -5, 7]), rng.choice([2, 2, 3, 3, 4, 5, 6, 7])
        if rng.random() < .15:
            q = -q
        if p % q:
            return p, q


class Program:
    """One generated program: draws inputs, computes with GATL, compares with the model."""

    def __init__(self, space):
        self.space, self.lines, self.k, self.text = space, [], 0, []
        self.weight = 1.0
        self.n = space.n

    def fresh(self, p):
        self.k += 1
        return "%s%d" % (p, self.k)

    def emit(self, s):
        self.lines.append("    " + s)

    def num(self, how="num"):
        x = self.fresh("x")
        self.emit("double const %s = cx.%s();" % (x, how))
        return x

    # Every operand method returns (gatl variable, model variable, text, approximate number of components).
    def declare(self, expr, refexpr, text, size, const=True):
        v = self.fresh("a")
        self.emit("%s %s = %s;" % ("auto const" if const else "auto", v, expr))
        r = self.fresh("r")
        self.emit("ref::MV const %s = %s;" % (r, refexpr))
        self.emit('cx.input("%s", %s);' % (v, r))
        return Operand(v, r, text, size)

    def mv(self, terms):
        s = "ref::MV(%d)" % self.n
        for b, x in terms:
            s += ".add(%d, %s)" % (b, x)
        return s

    def operand(self, rng, kind, how="num", blades=None, terms=None, grades=None):
        n = self.n
        allb = list(range(1 << n)) if blades is None else list(blades)
        if grades is not None:
            allb = [b for b in allb if popcount(b) in grades]
        pick = lambda: rng.choice(allb)
        if kind == "native":
            x = self.num(how)
            return self.declare(x, self.mv([(0, x)]), "native double", 1)
        if kind == "const":
            k = rng.choice([-3, -2, -1, 0, 1, 2, 5])
            return self.declare("ga::c<%d>" % k, self.mv([(0, k)]), "c<%d>" % k, 1)
        if kind == "scalar":
            x = self.num(how)
            return self.declare("ga::scalar(%s)" % x, self.mv([(0, x)]), "scalar", 1)
        if kind == "cblade":
            b = pick()
            return self.declare(bb(b), self.mv([(b, 1)]), "<%s>" % bname(b), 1)
        if kind == "cvector":
            i = rng.randint(1, n)
            return self.declare("ga::e(ga::c<%d>)" % i, self.mv([(1 << (i - 1), 1)]), "e(c<%d>)" % i, 1)
        if kind in ("cterm", "qterm", "rterm", "sbb", "sum", "csum", "mixsum"):
            if kind == "sbb":
                b = pick()
                x = self.num(how)
                v = self.fresh("a")
                self.emit("ga::scaled_constant_basis_blade_t<double%s> %s; *%s.values().begin() = %s;" % ("".join(",%d" % i for i in bits(b)), v, v, x))
                r = self.fresh("r")
                self.emit("ref::MV const %s = %s;" % (r, self.mv([(b, x)])))
                self.emit('cx.input("%s", %s);' % (v, r))
                return Operand(v, r, "scaled<%s>" % bname(b), 1)
            m = 1 if kind in ("cterm", "qterm", "rterm") else (terms or rng.randint(2, 4))
            m = min(m, len(allb))
            bs = rng.sample(allb, m)
            exprs, refs, txt = [], [], []
            for b in bs:
                k = {"cterm": "c", "qterm": "q", "rterm": "r"}.get(kind)
                if k is None:
                    k = rng.choice("ccqu") if kind == "csum" else rng.choice("rrrrcqu")
                if k == "c":
                    w = rng.choice([-3, -2, -1, 2, 3])
                    exprs.append("ga::c<%d> * %s" % (w, bb(b)))
                    refs.append((b, str(w)))
                    txt.append("<%d>*<%s>" % (w, bname(b)))
                elif k == "q":
                    p, q = fraction(rng)
                    exprs.append("(ga::c<%d> / ga::c<%d>) * %s" % (p, q, bb(b)))
                    refs.append((b, "%d.0L/%d" % (p, q)))
                    txt.append("<%d/%d>*<%s>" % (p, q, bname(b)))
                elif k == "u":
                    exprs.append(bb(b))
                    refs.append((b, "1"))
                    txt.append("<%s>" % bname(b))
                else:
                    x = self.num(how)
                    exprs.append("%s * %s" % (x, bb(b)))
                    refs.append((b, x))
                    txt.append("r*<%s>" % bname(b))
            return self.declare(" + ".join(exprs), self.mv(refs), " + ".join(txt), m)
        if kind in ("kvec", "mv", "even", "fmv"):
            if kind == "kvec":
                g = rng.choice(sorted(grades)) if grades is not None else rng.randint(0, n)
                ty, gs, t = "ga::full_kvector_t<double,%d,%d>" % (n, g), {g}, "full_kvector<%d>" % g
            elif kind == "mv":
                ty, gs, t = "ga::full_multivector_t<double,%d>" % n, set(range(n + 1)), "full_multivector"
            else:
                a = rng.randint(0, n)
                c = rng.randint(a, min(n, a + 1))
                ty, gs, t = "ga::full_multivector_t<double,%d,%d,%d>" % (n, a, c), set(range(a, c + 1)), "full_multivector<%d..%d>" % (a, c)
            v, r = self.fresh("a"), self.fresh("r")
            self.emit("auto const %s = vt::made_with<%s >(cx, &vt::Ctx::%s);" % (v, ty, how))
            self.emit("ref::MV const %s = vt::D(%d, %s);" % (r, n, v))
            self.emit('cx.input("%s", %s);' % (v, r))
            return Operand(v, r, t, sum(1 for b in range(1 << n) if popcount(b) in gs))
        if kind == "vec":
            cs, refs, txt = [], [], []
            for i in range(n):
                if rng.random() < .25:
                    w = rng.choice([-2, -1, 0, 1, 3])
                    cs.append("ga::c<%d>" % w)
                    refs.append((1 << i, str(w)))
                    txt.append("<%d>" % w)
                else:
                    x = self.num(how)
                    cs.append(x)
                    refs.append((1 << i, x))
                    txt.append("r")
            return self.declare("ga::vector(%s, %s)" % (self.space.cpp, ", ".join("+" + c if c[0] == "x" else c for c in cs)), self.mv(refs), "vector(%s)" % ",".join(txt), n)
        if kind == "dyn_e":
            i = self.fresh("i")
            self.emit("long const %s = cx.draw(1, %d);" % (i, n))
            return self.declare("ga::e(%s)" % i, "ref::blade(%d, 1u << (%s - 1), 1)" % (n, i), "e(runtime)", 1)
        if kind in ("dyn_u", "dyn_s"):
            lo = rng.randint(0, n) if grades is None else min(grades)
            if grades is None and rng.random() < .3:
                lo = 0
            hi = rng.randint(max(lo, 1), n) if grades is None else max(grades)
            ok = [b for b in range(1 << n) if lo <= popcount(b) <= hi]
            tab, b = self.fresh("t"), self.fresh("b")
            self.emit("static unsigned const %s[] = {%s};" % (tab, ",".join(map(str, ok))))
            self.emit("unsigned const %s = %s[cx.draw(0, %d)];" % (b, tab, len(ok) - 1))
            v, r = self.fresh("a"), self.fresh("r")
            x = "1"
            if kind == "dyn_u":
                self.emit("ga::unit_basis_blade_t<%d,%d> %s; *%s.bitsets().begin() = ga::bitset_t(%s);" % (lo, hi, v, v, b))
            else:
                x = self.num(how)
                self.emit("ga::scaled_basis_blade_t<double,%d,%d> %s; *%s.bitsets().begin() = ga::bitset_t(%s); *%s.values().begin() = %s;" % (lo, hi, v, v, b, v, x))
            self.emit("ref::MV const %s = ref::blade(%d, %s, %s);" % (r, n, b, x))
            self.emit('cx.input("%s", %s);' % (v, r))
            return Operand(v, r, "%s basis blade<%d..%d>(runtime)" % ("unit" if kind == "dyn_u" else "scaled", lo, hi), 1)
        raise ValueError(kind)

    def source(self, name):
        text = "; ".join(self.text).replace("\\", "\\\\").replace('"', '\\"')
        return 'VT_PROG(%s, "%s") {\n%s\n}\n' % (name, text, "\n".join(self.lines))


class Operand:
    def __init__(self, g, r, text, size):
        self.g, self.r, self.text, self.size = g, r, text, size


KINDS_STATIC = ["const", "scalar", "cblade", "cvector", "cterm", "qterm", "rterm", "sbb", "sum", "csum", "mixsum", "kvec", "mv", "fmv", "vec", "native"]
KINDS_DYN = ["dyn_e", "dyn_u", "dyn_s"]
