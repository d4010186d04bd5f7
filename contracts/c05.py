"""C05 domain boundaries: minimum-image separations, boundary wrapping, periodic and mirror images of particles."""
from fractions import Fraction as F
from gvc.runner import Property
from gvc.spec import *
from gvc import terms as T
from gvc.terms import un
import z3

OPEN, PERIODIC, MIRROR, WALL = range(4)
X = ['''#include "Sph.h"
#include "GhostNeighbours.hpp"
#include "DomainBox.h"
#include "TreeCell.h"
#define I(d) template class GhostNeighbourFinder<d>; template void NearestPeriodicVector<d>(const DomainBox<d>&, FLOAT*, FLOAT*); \\
 template bool BoxesOverlap<d>(const Box<d>&, const Box<d>&); template bool IsAnyBoundaryPeriodic<d>(const DomainBox<d>&); \\
 template bool IsAnyBoundaryReflecting<d>(const DomainBox<d>&); \\
 template int GhostNeighbourFinder<d>::ConstructAllGhosts<GradhSphParticle>(const GradhSphParticle<d>&, GradhSphParticle<d>*) const; \\
 template int GhostNeighbourFinder<d>::ConstructGhostsGather<GradhSphParticle>(const GradhSphParticle<d>&, GradhSphParticle<d>*) const; \\
 template int GhostNeighbourFinder<d>::ConstructGhostsScatterGather<GradhSphParticle, GradhSphParticle<d>::HydroForcesParticle>(const GradhSphParticle<d>&, std::vector<GradhSphParticle<d>::HydroForcesParticle>&) const; \\
 template void reflect<d>(MeshlessFVParticle<d>&, int, double); \\
 template struct DomainCellProxy<d>; template struct ParticleCellProxy<d>;
I(1)
I(2)
I(3)
''']
SRC = ["Hydrodynamics/Hydrodynamics.cpp", "Hydrodynamics/Ghosts.cpp", "Common/Integration.cpp", "Nbody/Nbody.cpp"]
CLS = ["%s<%d>" % (c, d) for d in (1, 2, 3) for c in
       ("DomainBox", "GhostNeighbourFinder", "TreeCellBase", "GradhSphParticle", "MeshlessFVParticle", "SM2012SphParticle", "Box", "Hydrodynamics",
        "NbodyParticle", "Particle", "Nbody")] + ["GradhSphParticle<%d>::HydroForcesParticle" % d for d in (1, 2, 3)]
P = Property("C05", SRC, ["Sph.h", "GhostNeighbours.hpp", "Ghosts.h", "Nbody.h", "MeshlessFV.h"], CLS, extra=X)

DIMS = [(1,), (2,), (3,)]


def domain(u, d, types=(OPEN, PERIODIC, MIRROR, WALL)):
    """a domain box: min < max, size and half consistent, periodic sides come in pairs"""
    b = u.obj("box", "DomainBox<%d>" % d)
    bx = {}
    for k in range(3):
        l, h = b["boundary_lhs[%d]" % k], b["boundary_rhs[%d]" % k]
        for s in (l, h):
            u.requires(between(min(types), s, max(types)))
        u.hint(r"boundary_.hs\[%d\]" % k, (min(types), max(types)))
        u.requires(iff(eq(l, PERIODIC), eq(h, PERIODIC)))
        u.requires(lt(b["min[%d]" % k], b["max[%d]" % k]))
        b.set("size[%d]" % k, b["max[%d]" % k] - b["min[%d]" % k])
        b.set("half[%d]" % k, (b["max[%d]" % k] - b["min[%d]" % k]) / 2)
        bx[k] = dict(l=l, r=h, min=b["min[%d]" % k], max=b["max[%d]" % k], size=b["max[%d]" % k] - b["min[%d]" % k], per=eq(l, PERIODIC))
    return b, bx


def nearest(dr, B, per):
    """the image separation of least magnitude (within half a box) for separations of up to 1.5 boxes"""
    return ite(and_(per, dr * 2 > B["size"]), dr - B["size"], ite(and_(per, dr * 2 < -B["size"]), dr + B["size"], dr))


@P.unit("minimum_image_vector", DIMS)
def mini(u, d):
    b, bx = domain(u, d)
    dr = u.fixed_array("dr", "double", d)
    co = u.fixed_array("corr", "double", d)
    x = [o.at(u.st) for o in dr]
    for o in u.call("NearestPeriodicVector<%d>" % d, b, dr[0], co[0]):
        for k in range(d):
            n, c, B = o(dr[k]), o(co[k]), bx[k]
            u.ensure(o, "separation changes by the reported correction", eq(n, x[k] + c))
            u.ensure(o, "correction is a box length or zero", or_(eq(c, 0), and_(B["per"], or_(eq(c, B["size"]), eq(c, -B["size"])))))
            u.ensure(o, "result within half a box", implies(and_(B["per"], le(absr(x[k]) * 2, B["size"] * 3)), le(absr(n) * 2, B["size"])))
            u.ensure(o, "result is never longer", implies(le(absr(x[k]) * 2, B["size"] * 3), le(absr(n), absr(x[k]))))


def finder(u, d, b, bx):
    """a ghost finder whose flags agree with the domain (established by finder_construction, finder_target_cell)"""
    g = u.obj("finder", "GhostNeighbourFinder<%d>" % d)
    g.set("_domain", b)
    anyp = or_(*[bx[k]["per"] for k in range(d)])
    anym = or_(*[or_(eq(bx[k]["l"], MIRROR), eq(bx[k]["r"], MIRROR)) for k in range(d)])
    for k in range(d):
        B = bx[k]
        g.set("_periodic_bound[%d]" % k, B["per"])
        g.set("_mirror_bound[%d][0]" % k, eq(B["l"], MIRROR))
        g.set("_mirror_bound[%d][1]" % k, eq(B["r"], MIRROR))
    g.set("_any_periodic", anyp)
    g.set("_any_mirror", anym)
    need = []
    for k in range(d):
        B = bx[k]
        n0 = and_(eq(B["l"], MIRROR), lt(g["_hbox.min[%d]" % k], B["min"]))
        n1 = and_(eq(B["r"], MIRROR), gt(g["_hbox.max[%d]" % k], B["max"]))
        g.set("_need_mirror[%d][0]" % k, n0)
        g.set("_need_mirror[%d][1]" % k, n1)
        need += [n0, n1]
    g.set("_need_mirrors", or_(*need))
    g.set("_any_special", or_(anyp, *need))
    return g, anyp, anym


def tb(v):
    v = un(v)
    return v if isinstance(v, (bool, z3.BoolRef)) else T.ne(v, 0)


@P.unit("finder_construction", DIMS)
def fcon(u, d):
    """constructor with a target cell establishes the finder invariant used by every other contract here"""
    b, bx = domain(u, d)
    g = u.obj("finder", "GhostNeighbourFinder<%d>" % d)
    c = u.obj("cell", "TreeCellBase<%d>" % d)
    h = u.obj("expect", "GhostNeighbourFinder<%d>" % d)
    for o in u.call("GhostNeighbourFinder<%d>::GhostNeighbourFinder(DomainBox<%d> const&, TreeCellBase<%d> const&)" % (d, d, d), g, b, c):
        need = []
        for k in range(d):
            B = bx[k]
            hmin, hmax = c["hbox.min[%d]" % k], c["hbox.max[%d]" % k]
            u.ensure(o, "periodic flag", iff(tb(o(g, "_periodic_bound[%d]" % k)), B["per"]))
            u.ensure(o, "mirror flag left", iff(tb(o(g, "_mirror_bound[%d][0]" % k)), eq(B["l"], MIRROR)))
            u.ensure(o, "mirror flag right", iff(tb(o(g, "_mirror_bound[%d][1]" % k)), eq(B["r"], MIRROR)))
            u.ensure(o, "centre", eq(o(g, "_centre[%d]" % k), c["rcell[%d]" % k]))
            for p, q in (("_cell", "bb"), ("_hbox", "hbox"), ("_vbox", "vbox")):
                for m in ("min", "max"):
                    u.ensure(o, p, eq(o(g, "%s.%s[%d]" % (p, m, k)), c["%s.%s[%d]" % (q, m, k)]))
            n0 = and_(eq(B["l"], MIRROR), lt(hmin, B["min"]))
            n1 = and_(eq(B["r"], MIRROR), gt(hmax, B["max"]))
            u.ensure(o, "mirror needed left", iff(tb(o(g, "_need_mirror[%d][0]" % k)), n0))
            u.ensure(o, "mirror needed right", iff(tb(o(g, "_need_mirror[%d][1]" % k)), n1))
            need += [n0, n1]
        anyp = or_(*[bx[k]["per"] for k in range(d)])
        anym = or_(*[or_(eq(bx[k]["l"], MIRROR), eq(bx[k]["r"], MIRROR)) for k in range(d)])
        u.ensure(o, "any periodic", iff(tb(o(g, "_any_periodic")), anyp))
        u.ensure(o, "any mirror", iff(tb(o(g, "_any_mirror")), anym))
        u.ensure(o, "any mirror needed", iff(tb(o(g, "_need_mirrors")), or_(*need)))
        u.ensure(o, "any special", iff(tb(o(g, "_any_special")), or_(anyp, *need)))


@P.unit("boundary_predicates", DIMS)
def preds(u, d):
    b, bx = domain(u, d)
    for o in u.call("IsAnyBoundaryPeriodic<%d>" % d, b):
        u.ensure(o, "any periodic", iff(o.ret if isinstance(un(o.ret), (bool, z3.BoolRef)) else ne(o.ret, 0), or_(*[bx[k]["per"] for k in range(d)])))
    for o in u.call("IsAnyBoundaryReflecting<%d>" % d, b):
        u.ensure(o, "any mirror", iff(o.ret if isinstance(un(o.ret), (bool, z3.BoolRef)) else ne(o.ret, 0), or_(*[or_(eq(bx[k]["l"], MIRROR), eq(bx[k]["r"], MIRROR)) for k in range(d)])))


@P.unit("finder_minimum_image", [(d, f) for d in (1, 2, 3) for f in ("NearestPeriodicVector", "ApplyPeriodicDistanceCorrection", "PeriodicDistanceCorrection")])
def fmin(u, d, f):
    b, bx = domain(u, d)
    g, anyp, anym = finder(u, d, b, bx)
    dr = u.fixed_array("dr", "double", d)
    r = u.fixed_array("r", "double", d)
    x = [o.at(u.st) for o in dr]
    y = [o.at(u.st) for o in r]
    args = {"NearestPeriodicVector": (g, dr[0]), "ApplyPeriodicDistanceCorrection": (g, r[0], dr[0]), "PeriodicDistanceCorrection": (g, dr[0], r[0])}[f]
    for o in u.call("GhostNeighbourFinder<%d>::%s" % (d, f), *args):
        moved = []
        for k in range(d):
            B = bx[k]
            img = nearest(x[k], B, B["per"])
            if f == "PeriodicDistanceCorrection":
                u.ensure(o, "input untouched", eq(o(dr[k]), x[k]))
                u.ensure(o, "correction takes the separation to its nearest image", implies(anyp, eq(x[k] + o(r[k]), img)))
            else:
                u.ensure(o, "separation is the nearest image", eq(o(dr[k]), img))
            if f == "ApplyPeriodicDistanceCorrection":
                u.ensure(o, "position moves with the separation", eq(o(r[k]) - y[k], o(dr[k]) - x[k]))


@P.unit("periodic_box_overlap", DIMS)
def pbo(u, d):
    """two boxes interact iff some periodic image of the second overlaps the first"""
    b, bx = domain(u, d)
    g, anyp, anym = finder(u, d, b, bx)
    A = u.obj("A", "Box<%d>" % d)
    C = u.obj("C", "Box<%d>" % d)
    each = []
    for k in range(d):
        a0, a1, c0, c1 = A["min[%d]" % k], A["max[%d]" % k], C["min[%d]" % k], C["max[%d]" % k]
        u.requires(le(a0, a1), le(c0, c1))
        L = bx[k]["size"]
        dc = (c0 + c1 - a0 - a1) / 2
        u.requires(implies(bx[k]["per"], le(absr(dc) * 2, L * 3)))
        def ov(s):
            return and_(le(a0, c1 + s), le(c0 + s, a1))
        each.append(or_(ov(0), and_(bx[k]["per"], or_(ov(L), ov(-L)))))
    for o in u.call("GhostNeighbourFinder<%d>::PeriodicBoxOverlap" % d, g, A, C):
        rv = o.ret if isinstance(un(o.ret), (bool, z3.BoolRef)) else ne(o.ret, 0)
        for k in range(d):
            u.ensure(o, "overlap implies an overlapping image", implies(rv, each[k]))
        u.ensure(o, "an overlapping image is found", implies(and_(*each), rv))
    for o in u.call("BoxesOverlap<%d>" % d, A, C):
        rv = o.ret if isinstance(un(o.ret), (bool, z3.BoolRef)) else ne(o.ret, 0)
        u.ensure(o, "plain overlap", iff(rv, and_(*[and_(le(A["min[%d]" % k], C["max[%d]" % k]), le(C["min[%d]" % k], A["max[%d]" % k])) for k in range(d)])))

# ------------------------------------------------------------------ particle boundaries
ACTIVE = 2
PER = [[1 << 7, 1 << 10], [1 << 8, 1 << 11], [1 << 9, 1 << 12]]       # [axis][0: near the left edge, 1: near the right edge]
MIR = [[1 << 13, 1 << 16], [1 << 14, 1 << 17], [1 << 15, 1 << 18]]


def bit(fl, b):
    return z3.Extract(b.bit_length() - 1, b.bit_length() - 1, fl) == 1 if T.isz(fl) else bool(fl & b)


def bvand(fl, m):
    return fl & m


def elementwise(u, arr, spec):
    """loop invariant 'elements below the loop counter are done, the others untouched' for each (field, old-state -> value)"""
    def inv(c, mode):
        r = []
        for f in spec:
            def fa(j, f=f):
                j = S(j)
                old = lambda nm: u.at(arr, un(j), c.entry, nm)
                new = u.at(arr, un(j), c.cur, f)
                done = and_(ge(j, 0), lt(j, S(c.K)))
                return T.and_(implies(done, eq(new, spec[f](lambda nm: S(old(nm)) if not T.isz(old(nm)) or z3.is_arith(old(nm)) else old(nm), j))),
                              implies(not_(done), eq(new, old(f))))
            r.append(("%s" % f, ("forall", arr.leaf(f), fa)))
        return r
    return inv


def wrapspec(bx, d):
    """positions, velocities and accelerations after the boundary check, as functions of the values before"""
    sp = {}
    for k in range(d):
        B = bx[k]
        low = lambda o, k=k, B=B: lt(o("r[%d]" % k), B["min"])
        high = lambda o, k=k, B=B: gt(o("r[%d]" % k), B["max"])
        refl = lambda o, B=B, low=low, high=high: or_(and_(low(o), or_(eq(B["l"], MIRROR), eq(B["l"], WALL))), and_(high(o), or_(eq(B["r"], MIRROR), eq(B["r"], WALL))))
        for q in ("r", "r0"):
            def pos(o, j, q=q, k=k, B=B, low=low, high=high):
                x = o("%s[%d]" % (q, k))
                return ite(and_(low(o), B["per"]), x + B["size"],
                       ite(and_(high(o), B["per"]), x - B["size"],
                       ite(and_(low(o), or_(eq(B["l"], MIRROR), eq(B["l"], WALL))), 2 * B["min"] - x,
                       ite(and_(high(o), or_(eq(B["r"], MIRROR), eq(B["r"], WALL))), 2 * B["max"] - x, x))))
            sp["%s[%d]" % (q, k)] = pos
        for q in ("v", "v0", "a", "a0"):
            def vel(o, j, q=q, k=k, refl=refl):
                x = o("%s[%d]" % (q, k))
                return ite(refl(o), -x, x)
            sp["%s[%d]" % (q, k)] = vel
    return sp


def wrap_ensures(u, o, arr, sp, bx, d, N, j):
    old = lambda nm: arr[j].at(u.st, nm)
    rng = and_(ge(j, 0), lt(j, N))
    for f in sp:
        u.ensure(o, "%s after the boundary check" % f, implies(rng, eq(arr[j].at(o.st, f), sp[f](old, j))))
    for k in range(d):
        B = bx[k]
        x = arr[j].at(o.st, "r[%d]" % k)
        u.ensure(o, "position inside closed boundaries", implies(and_(rng, ne(B["l"], OPEN)), ge(x, B["min"])))
        u.ensure(o, "position inside closed boundaries", implies(and_(rng, ne(B["r"], OPEN)), le(x, B["max"])))


def overshoot(u, arr, bx, d):
    """less than one box length outside the domain"""
    for k in range(d):
        B = bx[k]
        u.requires_forall(arr.leaf("r[%d]" % k), lambda j, k=k, B=B: and_(gt(arr[j].at(u.st, "r[%d]" % k), B["min"] - B["size"]), lt(arr[j].at(u.st, "r[%d]" % k), B["max"] + B["size"])), arr.n)


@P.unit("particle_wrap", DIMS)
def pwrap(u, d):
    """particles that crossed a boundary are moved to their periodic image, or reflected, with r0, v, v0, a, a0 transformed alike"""
    b, bx = domain(u, d)
    if d < 3:
        for k in range(d, 3):
            pass
    N = u.int("N", lo=0, hint=(0, 3))
    h = u.obj("hydro", "Hydrodynamics<%d>" % d)
    a = u.array("part", "GradhSphParticle<%d>" % d, N)
    h.set("size_hydro_part", u.lay.sizeof("GradhSphParticle<%d>" % d))
    h.set("hydrodata_unsafe", a.ptr())
    h.set("Nhydro", N)
    ti = u.obj("ti", "Box<%d>" % d)
    overshoot(u, a, bx, d)
    sp = wrapspec(bx, d)
    u.loops(elementwise(u, a, sp))
    u.options(merge_joins=True)
    for o in u.call("TimeIntegration<%d>::CheckBoundaries" % d, ti, b, h):
        u.each(o, N, lambda j: (wrap_ensures(u, o, a, sp, bx, d, N, j),
                                u.frame(o, a[j], ["%s%s" % (q, "[") for q in ("r", "r0", "v", "v0", "a", "a0")], "no other field changes", and_(ge(j, 0), lt(j, N)))))


@P.unit("star_wrap", DIMS)
def swrap(u, d):
    b, bx = domain(u, d)
    N = u.int("N", lo=0, hint=(0, 3))
    a = u.array("star", "NbodyParticle<%d>" % d, N)
    pa = u.ptr_array("stars", N, lambda i: a.ptr(i))
    nb = u.obj("nbody", "Nbody<%d>" % d)
    t = u.real("t")
    dt = u.real("dt")
    overshoot(u, a, bx, d)
    sp = wrapspec(bx, d)
    u.loops(elementwise(u, a, sp))
    u.options(merge_joins=True)
    for o in u.call("Nbody<%d>::CheckBoundaries" % d, nb, 0, N, t, dt, b, pa):
        u.each(o, N, lambda j: (wrap_ensures(u, o, a, sp, bx, d, N, j),
                                u.frame(o, a[j], ["%s%s" % (q, "[") for q in ("r", "r0", "v", "v0", "a", "a0")], "no other field changes", and_(ge(j, 0), lt(j, N)))))


# ------------------------------------------------------------------ images
def flagset(v):
    return v


def hasbit(fl, b):
    fl = un(fl)
    if T.isz(fl):
        n = b.bit_length() - 1
        if not isinstance(fl, z3.BitVecRef):
            fl = z3.Int2BV(fl, 32)
        return z3.Extract(n, n, fl) == z3.BitVecVal(1, 1)
    return bool(int(fl) & b)


@P.unit("reflection", [(c, d) for c in ("Particle", "MeshlessFVParticle", "GradhSphParticle::HydroForcesParticle") for d in (1, 2, 3)])
def refl(u, c, d):
    """reflect(p, k, x): mirror image in the plane x along axis k; every other component unchanged; applied twice = identity"""
    cls = "GradhSphParticle<%d>::HydroForcesParticle" % d if "::" in c else "%s<%d>" % (c, d)
    base = "GradhSphParticle<%d>" % d if c == "Particle" else cls
    x = u.real("x")
    for k in range(d):
        p = u.obj("p%d" % k, base)
        for o in u.call("re:^void reflect<%d>\\(%s&" % (d, cls.replace("<", "<")), p, k, x):
            vec = ["r", "v", "a"] + (["Wprim", "dQ", "dQdt"] if c == "MeshlessFVParticle" else [])
            for q in vec:
                for m in range(d):
                    f = "%s[%d]" % (q, m)
                    u.ensure(o, "%s of the mirror image" % q, eq(o(p, f), (2 * x - p[f] if q == "r" else -p[f]) if m == k else p[f]))
            for q in ("m", "h", "u", "rho", "sound", "pressure"):
                if u.lay.has(base, q):
                    u.ensure(o, q + " unchanged", eq(o(p, q), p[q]))
            if c == "MeshlessFVParticle":
                for i in range(d + 2):
                    for m in range(d):
                        f = "grad[%d][%d]" % (i, m)
                        sign = (-1 if m == k else 1) * (-1 if i == k else 1)
                        u.ensure(o, "gradient of the mirror image", eq(o(p, f), sign * p[f]))
                for i in range(d):
                    for m in range(d):
                        f = "B[%d][%d]" % (i, m)
                        sign = (-1 if m == k else 1) * (-1 if i == k else 1)
                        u.ensure(o, "gradient matrix of the mirror image", eq(o(p, f), sign * p[f]))
                for m in (d, d + 1):
                    u.ensure(o, "scalar state unchanged", and_(eq(o(p, "Wprim[%d]" % m), p["Wprim[%d]" % m]), eq(o(p, "dQdt[%d]" % m), p["dQdt[%d]" % m])))


IMG = ("ConstructGhostsGather", "ConstructAllGhosts")


@P.unit("gather_images", [(1, f, "*") for f in IMG] + [(2, f, "**") for f in IMG] + [(3, f, p) for f in IMG for p in ("mmo", "mom", "omm")])
def images_q(u, d, f, pat):
    images(u, d, f, pat)


@P.unit("gather_images_all_mirrors", [(3, f, "mmm") for f in IMG], thorough_only=True)
def images_t(u, d, f, pat):
    images(u, d, f, pat)


def images(u, d, f, pat):
    """the list holds the nearest periodic image of the particle and exactly its mirror images that are needed; each entry is the
    image its flags say it is"""
    b, bx = domain(u, d)
    for k in range(d):
        # pattern of the axis: m = both sides mirrors, o = neither, * = any
        if pat[k] == "m":
            u.requires(eq(bx[k]["l"], MIRROR), eq(bx[k]["r"], MIRROR))
            u.hint(r"boundary_.hs\[%d\]" % k, (MIRROR, MIRROR))
        elif pat[k] == "o":
            u.requires(lt(bx[k]["l"], MIRROR), lt(bx[k]["r"], MIRROR))
            u.hint(r"boundary_.hs\[%d\]" % k, (OPEN, PERIODIC))
    g, anyp, anym = finder(u, d, b, bx)
    cls = "GradhSphParticle<%d>" % d
    p = u.obj("p", cls)
    if not u.concrete:
        fl0 = un(p["flags._flag"])
        u.requires(fl0 & z3.BitVecVal(0x7FF80, 32) == z3.BitVecVal(0, 32))
    else:
        u.hint(r"flags", lambda r: r.choice([0, 2, 4]))
    n = 3 ** d
    a = u.array("ngb", cls, n)
    dom = [and_(ge(p["r[%d]" % k], bx[k]["min"]), le(p["r[%d]" % k], bx[k]["max"])) for k in range(d)]
    u.requires(*dom)
    for k in range(d):
        u.requires(and_(ge(g["_centre[%d]" % k], bx[k]["min"]), le(g["_centre[%d]" % k], bx[k]["max"])))
    gather = f == "ConstructGhostsGather"
    pos0 = []
    for k in range(d):
        B = bx[k]
        c = g["_centre[%d]" % k]
        pos0.append(c + nearest(p["r[%d]" % k] - c, B, B["per"]))
    u.options(group_returns=True)
    anyneed = or_(*[tb(g["_need_mirror[%d][%d]" % (k, s)]) for k in range(d) for s in (0, 1)])
    for o in u.call("re:^int GhostNeighbourFinder<%d>::%s<" % (d, f), g, p, a):
        N = un(o.ret)
        if T.isz(N):
            u.ensure(o, "number of images is determined", False)
            continue
        N = int(N)
        # how many images there must be along each axis
        cnt = S(1)
        for k in range(d):
            B = bx[k]
            x = pos0[k]
            if gather:
                n0 = and_(tb(g["_need_mirror[%d][0]" % k]), gt(2 * B["min"] - x, g["_hbox.min[%d]" % k]))
                n1 = and_(tb(g["_need_mirror[%d][1]" % k]), lt(2 * B["max"] - x, g["_hbox.max[%d]" % k]))
                cnt = cnt * (1 + ite(n0, 1, 0) + ite(n1, 1, 0))
        if gather:
            u.ensure(o, "number of images", eq(cnt, N))
        sig = []
        for i in range(N):
            fl = a[i].at(o.st, "flags._flag")
            pos, vel, mir, per = [], [], [], []
            for k in range(d):
                B = bx[k]
                L, Rr = hasbit(fl, MIR[k][0]), hasbit(fl, MIR[k][1])
                x = ite(L, 2 * B["min"] - pos0[k], pos0[k])
                x = ite(Rr, 2 * B["max"] - pos0[k], x)
                pos.append(eq(a[i].at(o.st, "r[%d]" % k), x))
                for q in ("v", "a"):
                    vel.append(eq(a[i].at(o.st, "%s[%d]" % (q, k)), ite(or_(L, Rr), -p["%s[%d]" % (q, k)], p["%s[%d]" % (q, k)])))
                mir += [implies(L, eq(B["l"], MIRROR)), implies(Rr, eq(B["r"], MIRROR)), not_(and_(L, Rr))]
                per += [iff(hasbit(fl, PER[k][0]), gt(pos0[k], p["r[%d]" % k])), iff(hasbit(fl, PER[k][1]), lt(pos0[k], p["r[%d]" % k]))]
            u.ensure(o, "image position", and_(*pos))
            u.ensure(o, "image velocity and acceleration", and_(*vel))
            u.ensure(o, "mirrored only where there is a mirror", and_(*mir))
            u.ensure(o, "periodic flags", and_(*per))
            u.ensure(o, "image scalars", and_(*[eq(a[i].at(o.st, q), p[q]) for q in ("m", "h", "rho", "u", "sound", "pressure", "div_v", "hrangesqd")]))
            sig.append([hasbit(fl, MIR[k][s]) for k in range(d) for s in (0, 1)])
        for i in range(N):
            u.ensure(o, "no image twice", and_(*[or_(*[not_(iff(x, y)) for x, y in zip(sig[i], sig[j])]) for j in range(i)]))
    for o in u.call("GhostNeighbourFinder<%d>::MaxNumGhosts" % d, g):
        e = S(1)
        for k in range(d):
            e = e * (1 + ite(eq(bx[k]["l"], MIRROR), 1, 0) + ite(eq(bx[k]["r"], MIRROR), 1, 0))
        u.ensure(o, "bound on the number of images", eq(o.ret, e))


# ------------------------------------------------------------------ ghost particles
def hydro(u, d, cls, N, nmax):
    h = u.obj("hydro", "Hydrodynamics<%d>" % d)
    a = u.array("part", "%s<%d>" % (cls, d), nmax)
    h.set("size_hydro_part", u.lay.sizeof("%s<%d>" % (cls, d)))
    h.set("hydrodata_unsafe", a.ptr())
    h.set("Nhydro", N)
    h.set("Nhydromax", nmax)
    return h, a


@P.unit("boundary_ghosts", [(d, k) for d in (1, 2, 3) for k in range(d)])
def bghost(u, d, k):
    """a particle that can come within its kernel support of a periodic or mirror boundary during the ghost lifetime gets an image
    there; every image made is the particle's image through exactly one boundary; the particle itself is not touched"""
    b, bx = domain(u, d)
    N = u.int("N", lo=1, hint=(1, 3))
    G = u.int("G", lo=0, hint=(0, 2))
    room = u.int("room", lo=3, hint=(3, 4))
    h, a = hydro(u, d, "GradhSphParticle", N, N + G + room)
    h.set("Nghost", G)
    i = u.int("i", lo=0, hint=(0, 3))
    u.requires(lt(i, N + G))
    tg = u.real("tghost", lo=0)
    kr = h["kernrange"]
    u.requires(gt(kr, 0))
    B = bx[k]
    p = a[i]
    u.requires(gt(p["h"], 0))
    r, v = p["r[%d]" % k], p["v[%d]" % k]
    if not u.concrete:
        fl0 = un(p["flags._flag"])
        u.requires(fl0 & z3.BitVecVal(0x1 | PER[k][0] | PER[k][1] | MIR[k][0] | MIR[k][1], 32) == z3.BitVecVal(0, 32))
    else:
        u.hint(r"flags", lambda rr: rr.choice([0, 2]))
    u.options(group_returns=True, merge_calls=False)
    cls = "GradhSphParticle<%d>" % d
    for o in u.call("Hydrodynamics<%d>::CheckBoundaryGhostParticle" % d, h, i, k, tg, b):
        g1 = o(h, "Nghost")
        closed = lambda s: or_(eq(s, PERIODIC), eq(s, MIRROR))
        needL = and_(closed(B["l"]), lt(r + minr(0, v * tg), B["min"] + kr * p["h"]))
        needR = and_(closed(B["r"]), gt(r + maxr(0, v * tg), B["max"] - kr * p["h"]))
        u.ensure(o, "at most one image per side", between(G, g1, G + 2))
        u.ensure(o, "particle next to a boundary gets an image", implies(or_(needL, needR), ge(g1, G + 1)))
        u.ensure(o, "particle next to both boundaries gets two images", implies(and_(needL, needR), eq(g1, G + 2)))
        u.ensure(o, "no images at open boundaries", implies(and_(not_(closed(B["l"])), not_(closed(B["r"]))), eq(g1, G)))
        u.frame(o, a[i], [], "original particle untouched")
        sides = []
        for e in range(2):
            q = a[N + G + e]
            made = gt(g1, G + e)
            fl = o(q, "flags._flag")
            bits = [hasbit(fl, x) for x in PER[k] + MIR[k]]
            x = o(q, "r[%d]" % k)
            vv = o(q, "v[%d]" % k)
            per0, per1, m0, m1 = bits
            u.ensure(o, "image through exactly one boundary", implies(made, eq(sumv([ite(z, 1, 0) for z in bits]), 1)))
            u.ensure(o, "image only through boundaries that exist", implies(made, and_(implies(per0, eq(B["l"], PERIODIC)), implies(per1, eq(B["r"], PERIODIC)),
                                                                                     implies(m0, eq(B["l"], MIRROR)), implies(m1, eq(B["r"], MIRROR)))))
            u.ensure(o, "needed image present", implies(made, True))
            u.ensure(o, "image position", implies(made, eq(x, ite(per0, r + B["size"], ite(per1, r - B["size"], ite(m0, 2 * B["min"] - r, 2 * B["max"] - r))))))
            u.ensure(o, "image velocity", implies(made, eq(vv, ite(or_(m0, m1), -v, v))))
            for m in range(d):
                if m != k:
                    u.ensure(o, "other components copied", implies(made, and_(eq(o(q, "r[%d]" % m), p["r[%d]" % m]), eq(o(q, "v[%d]" % m), p["v[%d]" % m]))))
            for f in ("m", "h", "rho", "u", "sound", "pressure", "hrangesqd", "level", "ptype"):
                u.ensure(o, "state copied", implies(made, eq(o(q, f), p[f])))
            u.ensure(o, "image refers to its original", implies(made, eq(o(q, "iorig"), i)))
            u.ensure(o, "image is inactive", implies(made, not_(hasbit(fl, ACTIVE))))
            sides.append((or_(per0, m0), or_(per1, m1)))
        has = lambda s: or_(and_(gt(g1, G), sides[0][s]), and_(gt(g1, G + 1), sides[1][s]))
        u.ensure(o, "the image at the left boundary is there", implies(needL, has(0)))
        u.ensure(o, "the image at the right boundary is there", implies(needR, has(1)))
        u.ensure(o, "the two images are of different boundaries", implies(gt(g1, G + 1), not_(and_(sides[0][0], sides[1][0]))))


def mirrored(cls, d):
    """fields reflect() may change"""
    return ["r[", "v[", "a["] + (["Wprim[", "dQ[", "dQdt["] if cls.startswith("Meshless") else [])


@P.unit("ghost_update", [(c, d) for c in ("GradhSphParticle", "SM2012SphParticle", "MeshlessFVParticle") for d in (1, 2, 3)])
def gupd(u, c, d):
    """refreshing the ghosts: ghost j is the image of its original through the boundary its highest-axis flag names; flags and
    original id are kept; real particles are not touched. Originals precede their images, so a loop in order is enough."""
    b, bx = domain(u, d)
    N = u.int("N", lo=1, hint=(1, 3))
    G = u.int("G", lo=0, hint=(0, 2))
    h, a = hydro(u, d, c, N, N + G)
    h.set("NPeriodicGhost", G)
    cls = "%s<%d>" % (c, d)
    ghost = lambda j: and_(ge(j, N), lt(j, N + G))

    def pre(j):
        fl = a[j].at(u.st, "flags._flag")
        f = un(fl)
        io = a[j].at(u.st, "iorig")
        r = [implies(ghost(j), and_(ge(io, 0), lt(io, j)))]
        anybit = 0
        for k in range(d):
            for x in PER[k] + MIR[k]:
                anybit |= x
        if T.isz(f):
            r.append(implies(ghost(j), z3.Not(f & z3.BitVecVal(anybit, 32) == z3.BitVecVal(0, 32))))
        return r
    u.requires_forall(a.anyleaf(), pre, N + G)
    if u.concrete:
        u.hint("flags", lambda r: r.choice([x | 2 * r.getrandbits(1) for k in range(d) for x in PER[k] + MIR[k]]))
        u.hint("iorig", (0, 0))
    fields = ["%s[%d]" % (q, k) for q in ("r", "v", "a") for k in range(d)] + ["m", "h", "rho", "u", "sound", "pressure", "hrangesqd", "ptype", "iorig", "flags._flag", "level"]
    if c.startswith("Mesh"):
        fields += ["Wprim[%d]" % k for k in range(d + 2)] + ["grad[%d][%d]" % (i, k) for i in range(d + 2) for k in range(d)]

    def axis(fl):
        """axis of the image: the highest axis with a flag; side flags"""
        done = False
        cases = []
        for k in reversed(range(d)):
            for (x, nm) in ((PER[k][0], "pl"), (PER[k][1], "pr"), (MIR[k][0], "ml"), (MIR[k][1], "mr")):
                cases.append((k, nm, hasbit(fl, x)))
        return cases

    def value(f, fl0, oldf):
        """value of field f of the image of a particle with fields oldf, through the boundary flags fl0"""
        base = oldf(f)
        import re as _re
        m = _re.match(r"(\w+)\[(\d)\](?:\[(\d)\])?$", f)
        if not m:
            return base
        q, k1, k2 = m.group(1), int(m.group(2)), m.group(3)
        res = base
        for (k, nm, c_) in reversed(axis(fl0)):
            B = bx[k]
            if q == "r":
                val = base if k != k1 else (base + B["size"] if nm == "pl" else base - B["size"] if nm == "pr" else 2 * B["min"] - base if nm == "ml" else 2 * B["max"] - base)
            elif q == "grad":
                s = (-1 if nm[0] == "m" and k == k1 else 1) * (-1 if nm[0] == "m" and k == int(k2) else 1)
                val = s * base
            else:
                val = -base if (k == k1 and nm[0] == "m") else base
            res = ite(c_, val, res)
        return res

    def want(cur, ent, j, f):
        fl0 = a[j].at(ent, "flags._flag")
        io = a[j].at(ent, "iorig")
        if f == "iorig":
            return io
        if f == "flags._flag":
            v = un(fl0)
            return S(v & z3.BitVecVal(~ACTIVE & 0xffffffff, 32)) if T.isz(v) else S(int(v) & ~ACTIVE)
        return value(f, fl0, lambda nm: a[io].at(cur, nm))

    def inv(cx, mode):
        r = []
        for f in fields:
            def fa(j, f=f):
                j = S(j)
                K = S(cx.K)
                new = a[j].at(cx.cur, f)
                done = and_(ge(j, N), lt(j, N + K))
                return T.and_(implies(done, eq(new, want(cx.cur, cx.entry, j, f))), implies(not_(done), eq(new, a[j].at(cx.entry, f))))
            r.append((f, ("forall", a.leaf(f), fa)))
        return r
    u.loops(inv)
    u.options(merge_joins=True, assert_mode="assume")
    g = u.obj("ghosts", "Box<%d>" % d)
    for o in u.call("PeriodicGhostsSpecific<%d, %s>::CopyHydroDataToGhosts" % (d, c), g, b, h):
        def post(j):
            for f in fields:
                u.ensure(o, "%s of a ghost" % f, implies(ghost(j), eq(a[j].at(o.st, f), want(o.st, u.st, j, f))))
                u.ensure(o, "%s of a real particle unchanged" % f, implies(and_(ge(j, 0), lt(j, N)), eq(a[j].at(o.st, f), a[j].at(u.st, f))))
        u.each(o, N + G, post)
