"""Pieces shared by the generators of the different properties."""
import random

from core import Prog
from opgen import *

SPARSE = ["const", "scalar", "cblade", "cvector", "cterm", "qterm", "rterm", "sbb", "sum", "csum", "mixsum", "vec", "native"]
RATIONAL = ("qterm", "sum", "csum", "mixsum")


def orth_space(rng, nmax=9):
    """Every orthogonal model of vector space the library ships, small ones more often."""
    while True:
        k = rng.choice("eehhppmmss")
        if k == "e":
            s = euclidean(rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8, 9]))
        elif k == "h":
            s = homogeneous(rng.choice([1, 2, 2, 3, 3, 4]))
        elif k == "p":
            s = plane_based(rng.choice([1, 2, 2, 3, 3, 4]))
        elif k == "m":
            s = minkowski(rng.choice([1, 1, 2, 2, 3]))
        else:
            s = signed(rng.choice([0, 1, 1, 2, 2, 3]), rng.choice([0, 1, 2, 2, 3, 3]), rng.choice([0, 0, 1, 1, 2]))
        if 1 <= s.n <= nmax:
            return s


def any_space(rng, nmax=9):
    return gen_space(rng, nmax) if rng.random() < .3 else orth_space(rng, nmax)


def gen_space(rng, nmax=5):
    while True:
        if rng.random() < .6:
            s = conformal(rng.choice([1, 1, 2, 2, 2, 3]))
        else:
            s = random_general(rng, rng.choice([1, 2, 2, 3, 3, 4]))
        if s.n <= nmax:
            return s


def ns_space(rng, models="ehpmc"):
    """A space that has a convenience namespace."""
    k = rng.choice(models)
    if k == "e":
        return euclidean(rng.choice([1, 2, 2, 3, 3, 3, 4, 5]))
    if k == "h":
        return homogeneous(rng.choice([1, 2, 2, 3, 3, 4]))
    if k == "p":
        return plane_based(rng.choice([1, 2, 2, 3, 3, 4]))
    if k == "m":
        return minkowski(rng.choice([1, 2, 2, 3]))
    return conformal(rng.choice([1, 2, 2, 3]))


def kinds_for(n, kinds=None):
    ks = list(kinds or KINDS_STATIC)
    if n >= 6:
        ks = [k for k in ks if k in SPARSE or k in KINDS_DYN]
    elif n == 5:
        ks = [k for k in ks if k != "mv"]
    return ks


def blade_pools(rng, n):
    """Two collections of basis blades (None: all of them) that make the operands of a product interact: blades of high
    grade, blades that share basis vectors, a few common blades, complements."""
    w = rng.random()
    full = (1 << n) - 1
    if w < .4 or n < 2:
        return None, None
    if w < .55:
        lo = max(1, n - rng.choice([0, 1, 1, 2]))
        q = [b for b in range(1 << n) if popcount(b) >= lo]
        return q, q if rng.random() < .7 else None
    if w < .75:
        core = rng.choice([b for b in range(1, 1 << n) if popcount(b) <= max(1, n // 2)])
        q = [b for b in range(1 << n) if b & core == core]
        return q, q
    if w < .9:
        q = rng.sample(range(1 << n), min(1 << n, rng.randint(1, 4)))
        return q, q
    q = rng.sample(range(1 << n), min(1 << n, rng.randint(1, 4)))
    return q, [full ^ b for b in q]


def two(rng, make_space, limit, kinds=None, kinds2=None, pools=True, **kw):
    """A fresh program with two operands whose products have at most limit pairs of components."""
    while True:
        s = make_space(rng)
        p = Program(s)
        k1, k2 = rng.choice(kinds_for(s.n, kinds)), rng.choice(kinds_for(s.n, kinds2 or kinds))
        if k1 == "native" and k2 == "native" or k1 == k2 == "const" and rng.random() < .9:
            continue
        if not pools or "blades" in kw or "grades" in kw:
            a, b = p.operand(rng, k1, **kw), p.operand(rng, k2, **kw)
        else:
            q1, q2 = blade_pools(rng, s.n)
            a, b = p.operand(rng, k1, blades=q1, **kw), p.operand(rng, k2, blades=q2, **kw)
        a.kind, b.kind = k1, k2
        if a.size * b.size <= limit:
            return p, a, b


def one(rng, make_space, limit, kinds=None, **kw):
    while True:
        s = make_space(rng)
        p = Program(s)
        k = rng.choice(kinds_for(s.n, kinds))
        if k == "native":
            continue
        kw2 = dict(kw)
        if callable(kw2.get("blades")):
            kw2["blades"] = kw2["blades"](s, k)
            if not kw2["blades"]:
                continue
        a = p.operand(rng, k, **kw2)
        a.kind = k
        if a.size <= limit:
            return p, a


def finish(p, text, weight, cases=200, **kw):
    q = Prog(text, "\n".join(p.lines), cases=cases, weight=weight, **kw)
    q.n = p.n
    return q


def high_indices(rng, k, limit=63):
    """k basis vector indices, in ascending order, some of them at the edges of machine words or of what is allowed."""
    edges = [i for i in [7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 47, 48, 61, 62, 63] if i <= limit] + [limit, max(1, limit - 1)]
    s = set()
    while len(s) < min(k, limit):
        s.add(rng.choice(edges) if rng.random() < .6 else rng.randint(1, limit))
    return sorted(s)


def wide(rng, what, limit=63, cases=100, **kw):
    """Sparse multivectors in vector spaces of many dimensions (up to the library's limit), against the sparse model.
    what: metric, outer, grades, runtime or all."""
    k = rng.randint(2, 6)
    ix = high_indices(rng, k, limit)
    nd = rng.choice([max(ix), limit, rng.randint(max(ix), limit)])
    if rng.random() < .35:
        nd = max(min(limit, rng.randint(6, 14)), 1)
        ix = sorted(rng.sample(range(1, nd + 1), min(nd, k)))
    w = rng.random()
    P, Q = (nd, 0) if w < .3 else (nd - 1, 1) if w < .5 and nd > 1 else (nd - 1, 0) if w < .6 and nd > 1 else (0, nd) if w < .65 else (lambda a, b: (min(a, b), abs(a - b)))(rng.randint(0, nd), rng.randint(0, nd))
    p = Program(euclidean(1, ns=False))
    M = "ga::signed_metric_space<%d,%d,%d>()" % (P, Q, nd - P - Q)
    p.emit("static wide::Space const W{%d, %d, %d};" % (nd, P, Q))
    mask = lambda b: sum(1 << (i - 1) for i in b)
    grades = {}

    def pick():
        if rng.random() < .25:
            # A blade of any grade the space has.
            return sorted(rng.sample(range(1, nd + 1), rng.randint(0, nd)))
        return sorted(rng.sample(ix, rng.randint(0, len(ix))))

    def val(v, blades=None, most=3):
        bs = []
        for _ in range(rng.randint(1, most)):
            b = blades() if blades else pick()
            if b not in bs:
                bs.append(b)
        grades[v] = [len(b) for b in bs]
        es, rs = [], []
        for b in bs:
            e = "BB<%s>()" % ",".join(map(str, b))
            if rng.random() < .3:
                w = rng.choice([-2, -1, 3])
                es.append("ga::c<%d> * %s" % (w, e))
                rs.append((b, str(w)))
            else:
                x = p.num()
                p.emit('cx.input("%s", %s);' % (x, x))
                es.append("%s * %s" % (x, e))
                rs.append((b, x))
        p.emit("auto const %s = %s; wide::MV const r%s = wide::MV()%s;" % (v, " + ".join(es), v, "".join(".add(%dull, %s)" % (mask(b), x) for b, x in rs)))
        return "+".join("e" + ".".join(map(str, b)) for b in bs)

    def eq(got, want, label):
        p.emit('wide::eq(cx, wide::value(%s), %s, "%s");' % (got, want, label))
    text = []
    if what in ("metric", "outer", "all", "grades"):
        text += [val("a"), val("b")]
    if what in ("metric", "all"):
        for o in rng.sample(["gp", "lcont", "rcont", "dot", "hip", "sp"], 3):
            eq("ga::%s(a, b, %s)" % (o, M), "wide::%s(W, ra, rb)" % o, o)
    if what in ("outer", "all"):
        eq("ga::op(a, b, %s)" % M, "wide::op(W, ra, rb)", "op")
    if what == "outer" or what == "all" and rng.random() < .3:
        # Blades that leave few of the basis vectors out.
        n2 = nd if nd <= 20 or rng.random() < .3 else rng.randint(6, 20)
        few = lambda: [i for i in range(1, n2 + 1) if i not in out]
        out = []

        def most():
            out[:] = rng.sample(range(1, n2 + 1), rng.randint(0, min(2, n2)))
            return few()
        text += [val("c", most, 2), val("d", most, 2)]
        p.emit("static wide::Space const W2{%d, %d, 0};" % (n2, n2))
        eq("ga::rp(c, d, ga::euclidean_metric_space<%d>())" % n2, "wide::rp(W2, rc, rd)", "rp in %d dimensions" % n2)
    if what in ("grades", "all"):
        for f in rng.sample(["reverse", "involute", "conjugate"], 2 if what == "grades" else 1):
            eq("ga::%s(a)" % f, "wide::%s(ra)" % f, f)
        g = rng.choice(grades["b"]) if rng.random() < .7 else rng.randint(0, len(ix))
        eq("ga::take_grade(b, ga::c<%d>)" % g, "wide::take(rb, %d)" % g, "take_grade")
        eq("a - b", "wide::plus(ra, wide::graded(rb, -1, -1, -1, -1))", "difference")
    if what == "runtime" or what == "all" and rng.random() < .5:
        # A blade chosen at run time.
        base = sorted(set(rng.sample(range(1, nd + 1), rng.randint(0, nd))) - set(ix)) if rng.random() < .35 else []
        lo, hi = rng.choice([(0, nd), (len(base), len(base) + len(ix)), (0, nd)])
        p.emit("static unsigned long const I[] = {%s};" % ",".join("%dul" % (i - 1) for i in ix))
        p.emit("unsigned const m = unsigned(cx.draw(0, %d)); unsigned long const base = %dul; unsigned long u = base; for (int i = 0; i < %d; ++i) if (m >> i & 1) u |= 1ul << I[i]; double const x = cx.numnz();" % ((1 << len(ix)) - 1, mask(base), len(ix)))
        p.emit("ga::scaled_basis_blade_t<double,%d,%d> d1; *d1.bitsets().begin() = ga::bitset_t(u); *d1.values().begin() = x; wide::MV const rd1 = wide::MV().add(u, x);" % (lo, hi))
        p.emit('cx.input("blade", double(u)); cx.input("coefficient", x);')
        p.emit("std::vector<long> is; ga::for_each_basis_vector(d1, [&](ga::index_t i, bool &) { is.push_back(long(i)); }); std::size_t at = 0; for (int i = 0; i < 64; ++i) if (u >> i & 1) cx.require(at < is.size() && is[at++] == long(i + 1), \"basis vectors\"); cx.require(at == is.size(), \"number of basis vectors\");")
        eq("d1", "rd1", "blade")
        for f in ("reverse", "involute", "conjugate"):
            eq("ga::%s(d1)" % f, "wide::%s(rd1)" % f, f)
        other = [rng.choice(ix)] if rng.random() < .5 else pick()
        p.emit("auto const q = ga::c<3> * BB<%s>(); wide::MV const rq = wide::MV().add(%dull, 3);" % (",".join(map(str, other)), mask(other)))
        for o in rng.sample(["gp", "lcont", "rcont", "dot", "hip", "sp", "op"], 3):
            f, r = rng.choice([("d1, q", "rd1, rq"), ("q, d1", "rq, rd1"), ("d1, d1", "rd1, rd1")])
            eq("ga::%s(%s, %s)" % (o, f, M), "wide::%s(W, %s)" % (o, r), "%s(%s)" % (o, f))
        p.emit("long const i = long(I[cx.draw(0, %d)]) + 1;" % (len(ix) - 1))
        eq("ga::e(i)", "wide::MV().add(1ull << (i - 1), 1)", "e(i)")
        text.append("runtime blade<%d..%d> with e%s" % (lo, hi, ".".join(map(str, other))))
    q = finish(p, "signed<%d,%d,%d> (indices up to %d), basis vectors %s: %s" % (P, Q, nd - P - Q, limit, ix, "; ".join(text)), .9, cases=cases, pre=kw.pop("pre", "") + '#include "wide.hpp"\n', **kw)
    q.n = nd
    return q


def unique(make, count, tries=6):
    out, seen = [], set()
    for _ in range(count * tries):
        q = make()
        if q is None or q.name in seen:
            continue
        seen.add(q.name)
        out.append(q)
        if len(out) >= count:
            break
    return out
