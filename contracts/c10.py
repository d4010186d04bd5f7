"""C10 grad-h SPH pair forces: pressure, dissipation, self-gravity, stars; each neighbour's contribution exactly once; pair antisymmetry."""
from fractions import Fraction as F
from gvc.runner import Property
from gvc.unit import Reject
from .common import *

SRC = ["GradhSph/GradhSph.cpp", "Thermal/AdiabaticEOS.cpp", "Hydrodynamics/M4Kernel.cpp"]
CLS = ["%s<%d>" % (c, d) for d in (1, 2, 3) for c in ("GradhSphParticle", "NbodyParticle", "Adiabatic", "EOS", "M4Kernel")] + \
      ["GradhSph<%d, M4Kernel>" % d for d in (1, 2, 3)] + ["GradhSphParticle<%d>::HydroForcesParticle" % d for d in (1, 2, 3)] + \
      ["NeighbourList<GradhSphParticle<%d>::HydroForcesParticle>" % d for d in (1, 2, 3)] + ["std::vector<int>"]
P = Property("C10", SRC, ["Sph.h", "NeighbourManager.h", "Particle.h", "EOS.h"], CLS)
DEAD = 1
SMALL = lit(1e-20)
DIMS = [(1,), (2,), (3,)]
mon97, mm97v, cd2010v = 1, 2, 3
wadsley, price = 1, 2


DISS = [(a, c) for a in range(4) for c in range(3)]


def scheme(u, d, av=None, ac=None):
    h = u.obj("sph", "GradhSph<%d, M4Kernel>" % d)
    e = u.obj("eos", "Adiabatic<%d>" % d)
    u.vtable(e, "Adiabatic<%d>" % d)
    h.set("eos", e.ptr())
    u.requires(gt(e["gamma"], 1))
    e.set("gammam1", e["gamma"] - 1)
    u.hint("gamma$", (1.1, 2.0))
    if av is not None:
        h.set("avisc", av); h.set("acond", ac)
    for f, n in (("avisc", 3), ("acond", 2), ("tdavisc", 2)):
        u.requires(between(0, h[f], n))
        u.hint("sph." + f + "$", (0, n))
    return h, e


def nlist(u, d):
    """a neighbour list: N indices into an array of M neighbours"""
    nc = "GradhSphParticle<%d>::HydroForcesParticle" % d
    M = u.int("M", lo=0, hint=(0, 3)); N = u.int("N", lo=0, hint=(0, 3))
    nb = u.array("neib", nc, M); ix = u.array("idx", "int", N)
    v1, v2 = u.obj("vidx", "std::vector<int>"), u.obj("vneib", "std::vector<int>")
    for v, a, n in ((v1, ix, N), (v2, nb, M)):
        u.vector(v, "_M_impl", a, n)
    nl = u.obj("list", "NeighbourList<GradhSphParticle<%d>::HydroForcesParticle>" % d)
    nl.set("_idx", v1.ptr()); nl.set("_neibpart", v2.ptr())
    u.requires_forall(ix.leaf(), lambda j: and_(ge(ix.val(j), 0), lt(ix.val(j), M)), N)
    for f in ("h", "rho", "m"):
        u.requires_forall(nb.leaf(f), lambda j, f=f: gt(nb[j].at(u.st, f), 0), M)
    u.requires_forall(nb.leaf("flags._flag"), lambda j: not_(hasbit(nb[j].at(u.st, "flags._flag"), DEAD)), M)
    u.hint(r"neib\[?\d*\]?\.?(h|rho|m|hfactor|pressure|sound|invomega)$", (0.5, 1.5))
    u.hint(r"idx", lambda r: r.randint(0, 2))
    u.hint(r"flags", lambda r: 0)
    u.hint(r"level", lambda r: r.randint(0, 5))
    u.options(merge_joins=True)
    return M, N, nb, ix, nl


def parti(u, d):
    p = u.obj("parti", "GradhSphParticle<%d>" % d)
    u.requires(gt(p["h"], 0), gt(p["rho"], 0), not_(hasbit(p["flags._flag"], DEAD)))
    return p


def geometry(ri, rj, d, soften):
    dr = sub(rj, ri)
    if soften:
        r = sqrt(dot(dr, dr) + SMALL)
        return r, [x * inv(r) for x in dr]
    r = sqrt(dot(dr, dr))
    return r, [ite(gt(r, 0), x * inv(r), x) for x in dr]


def hydro(d, sc, kern, i, j, soften):
    """rates that neighbour j gives particle i: (acceleration, heating by dissipation, -rho*div v). i, j: field accessors; sc: parameters"""
    vec = lambda a, q: [a("%s[%d]" % (q, k)) for k in range(d)]
    r, n = geometry(vec(i, "r"), vec(j, "r"), d, soften)
    dvdr = dot(sub(vec(j, "v"), vec(i, "v")), n)
    wi = i("hfactor") * kern["w1"](r * inv(i("h")))
    wj = j("hfactor") * kern["w1"](r * inv(j("h")))
    m = j("m")
    P = i("pressure") * i("invomega") * inv(i("rho") * i("rho")) * wi + j("pressure") * j("invomega") * inv(j("rho") * j("rho")) * wj
    ir = inv(i("rho")) + inv(j("rho"))
    wr = (wi + wj) * ir * F(1, 4)
    al = ite(eq(sc["avisc"], mon97), sc["alpha_visc"], (i("alpha") + j("alpha")) / 2)
    vs = i("sound") + j("sound") - sc["beta_visc"] * al * dvdr
    app = lt(dvdr, 0)
    visc = and_(app, between(1, sc["avisc"], 3))
    Q = ite(visc, -(al * vs * dvdr * wr), F(0))
    heat = ite(visc, -(m * al * vs * dvdr * dvdr * wr) / 2, F(0))
    cond = ite(and_(app, eq(sc["acond"], wadsley)), m * dvdr * (j("u") - i("u")) * (inv(i("rho")) * wi + inv(j("rho")) * wj),
               ite(and_(app, eq(sc["acond"], price)), m * (i("u") - j("u")) * wr * ir * sqrt(absr(i("pressure") - j("pressure"))) / 2, F(0)))
    return [m * x * (P + Q) for x in n], heat + cond, -(m * dvdr * wi), dict(P=P, Q=Q, n=n, dvdr=dvdr, wi=wi, wj=wj, r=r, heat=heat, cond=cond)


def grav(d, kern, i, j):
    """softened gravity of j on i, averaged over the two smoothing lengths, with the zeta correction: (acceleration, potential)"""
    vec = lambda a, q: [a("%s[%d]" % (q, k)) for k in range(d)]
    r, n = geometry(vec(i, "r"), vec(j, "r"), d, True)
    hi, hj = inv(i("h")), inv(j("h"))
    g = (hi * hi * kern["wgrav"](r * hi) + i("zeta") * i("hfactor") * kern["w1"](r * hi) +
         hj * hj * kern["wgrav"](r * hj) + j("zeta") * j("hfactor") * kern["w1"](r * hj)) / 2
    return [j("m") * x * g for x in n], j("m") * (hi * kern["wpot"](r * hi) + hj * kern["wpot"](r * hj)) / 2


def reached(u, ix):
    """reached(q, n) > 0: neighbour q is among the first n list entries"""
    return GMax(u, "reached", lambda q, j: ite(eq(ix.val(j), q), F(1), F(0)), 1, start=F0)


def routine(u, fn, d, with_hydro, with_grav, both_levels, av=None, ac=None):
    h, e = scheme(u, d, av, ac)
    kern = kernel(u, d, ("w1", "wgrav", "wpot") if with_grav else ("w1",), owner=h)
    M, N, nb, ix, nl = nlist(u, d)
    p = parti(u, d)
    pi = lambda f: p.at(u.st, f)
    nj = lambda j: (lambda f: nb[ix.val(j)].at(u.st, f))
    terms = {}
    if with_hydro:
        H = lambda j: hydro(d, h, kern, pi, nj(j), with_grav)
        for k in range(d):
            terms["a[%d]" % k] = lambda j, k=k: H(j)[0][k]
        terms["dudt"] = lambda j: H(j)[1]
        terms["div_v"] = lambda j: H(j)[2]
    if with_grav:
        G = lambda j: grav(d, kern, pi, nj(j))
        for k in range(d):
            terms["atree[%d]" % k] = lambda j, k=k: G(j)[0][k]
        terms["gpot"] = lambda j: G(j)[1]
    sums = {f: GSum(u, f.replace("[", "").replace("]", ""), t) for f, t in terms.items()}
    lev = GMax(u, "level", lambda j: T.R(un(nj(j)("level"))), start=F0) if False else None
    mx = GMax(u, "level", lambda j: nj(j)("level"), start=pi("levelneib"))
    rch = reached(u, ix)

    def inv_(c, mode):
        K = S(c.K)
        r = [(f, eq(p.at(c.cur, f), p.at(c.entry, f) + s(K))) for f, s in sums.items()]
        r.append(("levelneib", eq(p.at(c.cur, "levelneib"), mx(K))))
        if both_levels:
            def fa(q):
                q = S(q)
                old, new = nb[q].at(c.entry, "levelneib"), nb[q].at(c.cur, "levelneib")
                return eq(new, ite(gt(rch(q, K), 0), maxr(old, p.at(c.entry, "level")), old))
            r.append(("neighbour levelneib", ("forall", nb.leaf("levelneib"), fa)))
        return r
    u.loops(inv_)
    for o in u.call(fn, h, p, nl):
        got = lambda f: p.at(o.st, f)
        final = {f: pi(f) + s(N) for f, s in sums.items()}
        if with_hydro:
            final["div_v"] = final["div_v"] * inv(pi("rho"))
            press = (e["gamma"] - 1) * pi("rho") * pi("u")
            final["dudt"] = final["dudt"] - press * final["div_v"] * inv(pi("rho")) * pi("invomega")
            final["dalphadt"] = ite(eq(h["tdavisc"], 1), pi("sound") * (h["alpha_visc_min"] - pi("alpha")) * inv(pi("h")) * lit(0.1) +
                                    maxr(-final["div_v"], 0) * (h["alpha_visc"] - pi("alpha")), pi("dalphadt"))
        final["levelneib"] = mx(N)
        for f, v in final.items():
            u.ensure(o, f, eq(got(f), v))
        u.frame(o, p, list(final))
        u.frame(o, nl, [])

        def post(q):
            if both_levels:
                u.ensure(o, "neighbour levelneib", implies(lt(q, M), eq(nb[q].at(o.st, "levelneib"), ite(gt(rch(q, N), 0), maxr(nb[q].at(u.st, "levelneib"), pi("level")), nb[q].at(u.st, "levelneib")))))
            u.frame(o, nb[q], ["levelneib"] if both_levels else [], "neighbour otherwise unchanged", lt(q, M))
        u.each(o, M, post)


@P.unit("hydro_forces", [(d, a, c) for d in (1, 2, 3) for a, c in DISS])
def f_hydro(u, d, av, ac):
    """every list entry adds its pressure, viscosity and conductivity terms once; the heating rate closes with the compression term"""
    routine(u, "GradhSph<%d, M4Kernel>::ComputeSphHydroForces" % d, d, True, False, True, av, ac)


@P.unit("hydro_grav_forces", [(d, a, c) for d in (1, 2, 3) for a, c in DISS])
def f_hydrograv(u, d, av, ac):
    """the same hydrodynamical terms, plus softened self-gravity averaged over both smoothing lengths"""
    routine(u, "GradhSph<%d, M4Kernel>::ComputeSphHydroGravForces" % d, d, True, True, True, av, ac)


@P.unit("grav_forces", DIMS)
def f_grav(u, d):
    """the same softened self-gravity without hydrodynamics"""
    routine(u, "GradhSph<%d, M4Kernel>::ComputeSphGravForces" % d, d, False, True, False)


@P.unit("direct_gravity", DIMS)
def direct(u, d):
    """unsoftened gravity: every list entry adds m dr/|dr|^3 to the acceleration and m/|dr| to the potential, once"""
    h = u.obj("sph", "GradhSph<%d, M4Kernel>" % d)
    M, N, nb, ix, nl = nlist(u, d)
    p = parti(u, d)
    pi = lambda f: p.at(u.st, f)
    nj = lambda j: (lambda f: nb[ix.val(j)].at(u.st, f))
    # the caller lists only neighbours outside both kernels
    dr = lambda j: [nj(j)("r[%d]" % k) - pi("r[%d]" % k) for k in range(d)]
    r2 = lambda j: dot(dr(j), dr(j)) + SMALL
    u.requires_forall(ix.leaf(), lambda j: and_(ge(r2(j), pi("hrangesqd")), ge(r2(j), nj(j)("hrangesqd"))), N)
    u.hint("hrangesqd", (0.001, 0.01))
    ir = lambda j: inv(sqrt(r2(j)))
    terms = {"gpot": lambda j: nj(j)("m") * ir(j)}
    for k in range(d):
        terms["atree[%d]" % k] = lambda j, k=k: nj(j)("m") * dr(j)[k] * ir(j) * ir(j) * ir(j)
    single(u, d, "GradhSphBase<%d>::ComputeDirectGravForces" % d, (h, p, nl), p, terms, N)


def single(u, d, fn, args, p, terms, N):
    sums = {f: GSum(u, f.replace("[", "").replace("]", ""), t) for f, t in terms.items()}
    u.loops(lambda c, mode: [(f, eq(p.at(c.cur, f), p.at(c.entry, f) + s(S(c.K)))) for f, s in sums.items()])
    for o in u.call(fn, *args):
        for f, s in sums.items():
            u.ensure(o, f, eq(p.at(o.st, f), p.at(u.st, f) + s(N)))
        u.frame(o, p, list(sums))


@P.unit("star_gravity", DIMS)
def stargrav(u, d):
    """stars attract gas through the kernel softened with the mean smoothing length; all with the common mass when it is fixed"""
    h, e = scheme(u, d)
    kern = kernel(u, d, ("wgrav", "wpot"), owner=h)
    p = parti(u, d)
    N = u.int("N", lo=0, hint=(0, 3))
    a = u.array("star", "NbodyParticle<%d>" % d, N)
    pa = u.ptr_array("stars", N, lambda i: a.ptr(i))
    u.requires_forall(a.leaf("h"), lambda j: gt(a[j].at(u.st, "h"), 0), N)
    u.hint("star.h", (0.5, 1.5)); u.hint("parti.(h|rho)$", (0.5, 1.5)); u.hint("flags", lambda r: 0)
    u.hint("fixed_sink_mass", (0, 1))
    s = lambda j, f: a[j].at(u.st, f)
    def g(j):
        dr = [s(j, "r[%d]" % k) - p["r[%d]" % k] for k in range(d)]
        r = sqrt(dot(dr, dr) + SMALL)
        ih = inv((p["h"] + s(j, "h")) / 2)
        m = ite(ne(h["fixed_sink_mass"], 0), h["msink_fixed"], s(j, "m"))
        return [m * ih * ih * kern["wgrav"](r * ih) * inv(r) * x for x in dr], m * ih * kern["wpot"](r * ih)
    terms = {"gpot": lambda j: g(j)[1]}
    for k in range(d):
        terms["atree[%d]" % k] = lambda j, k=k: g(j)[0][k]
    single(u, d, "GradhSph<%d, M4Kernel>::ComputeStarGravForces" % d, (h, N, pa, p), p, terms, N)


@P.unit("thermal", DIMS)
def thermal(u, d):
    """internal energy, sound speed and pressure are those of the gas law; dust keeps its own"""
    h, e = scheme(u, d)
    p = parti(u, d)
    u.requires(gt(p["u"], 0))
    u.hint("ptype", (0, 4)); u.hint(r"parti\.u$", (0.5, 2)); u.hint("parti.(h|rho)$", (0.5, 1.5)); u.hint("flags", lambda r: 0)
    dust = eq(p["ptype"], 3)
    for o in u.call("GradhSph<%d, M4Kernel>::ComputeThermalProperties" % d, h, p):
        c = p.at(o.st, "sound")
        u.ensure(o, "u", eq(p.at(o.st, "u"), p["u"]))
        u.ensure(o, "sound", ite(dust, eq(c, p["sound"]), and_(ge(c, 0), eq(c * c, e["gamma"] * (e["gamma"] - 1) * p["u"]))))
        u.ensure(o, "pressure", eq(p.at(o.st, "pressure"), ite(dust, p["pressure"], (e["gamma"] - 1) * p["rho"] * p["u"])))
        u.frame(o, p, ["u", "sound", "pressure"])


@P.unit("pair_laws", [(d, a, c) for d in (1, 2, 3) for a, c in DISS] )
def pairs(u, d, av, ac):
    """lemmas over the pair terms of the contracts above: the forces of a pair are opposite (momentum), hydrodynamical work plus heating sum
    to zero (energy), dissipation heats, gravity is symmetric and its potential reciprocal"""
    h, e = scheme(u, d, av, ac)
    kern = kernel(u, d, ("w1", "wgrav", "wpot"), owner=h)
    A, B = u.obj("A", "GradhSphParticle<%d>" % d), u.obj("B", "GradhSphParticle<%d>" % d)
    for q in (A, B):
        u.requires(gt(q["h"], 0), gt(q["rho"], 0), gt(q["m"], 0))
    fa, fb = (lambda f: A[f]), (lambda f: B[f])
    for soft in (False, True):
        tag = " (softened distance)" if soft else ""
        ab, ha, da, ia = hydro(d, h, kern, fa, fb, soft)
        ba, hb, db, ib = hydro(d, h, kern, fb, fa, soft)
        for k in range(d):
            u.lemma("momentum of a pair is conserved%s, axis %d" % (tag, k), eq(A["m"] * ab[k], -(B["m"] * ba[k])))
        # m v.a + m du/dt over the pair; the compression part of du/dt is -P invomega/rho^2 * (rho div v)
        dua = ha - A["pressure"] * inv(A["rho"] * A["rho"]) * A["invomega"] * da
        dub = hb - B["pressure"] * inv(B["rho"] * B["rho"]) * B["invomega"] * db
        va, vb = ([q["v[%d]" % k] for k in range(d)] for q in (A, B))
        u.lemma("energy of a pair is conserved" + tag, eq(A["m"] * (dot(va, ab) + dua), -(B["m"] * (dot(vb, ba) + dub))))
    ga, pa = grav(d, kern, fa, fb)
    gb, pb = grav(d, kern, fb, fa)
    for k in range(d):
        u.lemma("gravity of a pair conserves momentum, axis %d" % k, eq(A["m"] * ga[k], -(B["m"] * gb[k])))
    u.lemma("potential energy of a pair is the same from both sides", eq(A["m"] * pa, B["m"] * pb))
