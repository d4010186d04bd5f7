"""C09 N-body: pair forces between stars, predictor/corrector integration, block bookkeeping, sub-system centre of mass."""
from fractions import Fraction as F
from gvc.runner import Property
from gvc.unit import Reject
from .common import *

KERN = "M4Kernel"
X = []
SRC = ["Nbody/Nbody.cpp", "Nbody/NbodyHermite4.cpp", "Nbody/NbodyHermite4TS.cpp", "Nbody/NbodyHermite6TS.cpp", "Nbody/NbodyLeapfrogKDK.cpp", "Nbody/NbodyLeapfrogDKD.cpp",
       "Hydrodynamics/M4Kernel.cpp"]
CLS = ["%s<%d>" % (c, d) for d in (1, 2, 3) for c in ("NbodyParticle", "Nbody", "DomainBox", "M4Kernel", "SystemParticle", "GradhSphParticle", "Hydrodynamics", "Ewald")] + \
      ["%s<%d, M4Kernel>" % (c, d) for d in (1, 2, 3) for c in ("NbodyHermite4", "NbodyHermite4TS", "NbodyHermite6TS", "NbodyLeapfrogKDK", "NbodyLeapfrogDKD")]
P = Property("C09", SRC, ["Nbody.h", "Hydrodynamics.h", "Sph.h", "Particle.h"], CLS, extra=X)
ACTIVE, ENDSTEP = 2, 4
TWOPI = lit(6.28318530717959)
SMALL = lit(1e-20)
SMALLDP = lit(1e-50)


def stars(u, d, cls="Nbody<%d>", hint=(0, 3)):
    N = u.int("N", lo=0, hint=hint)
    a = u.array("star", "NbodyParticle<%d>" % d, N)
    pa = u.ptr_array("stars", N, lambda i: a.ptr(i))
    nb = u.obj("nbody", cls % d)
    return N, a, pa, nb


def openbox(u, d):
    """domain with open or periodic axes; dr -> nearest image"""
    b = u.obj("box", "DomainBox<%d>" % d)
    per = []
    for k in range(3):
        l, r = b["boundary_lhs[%d]" % k], b["boundary_rhs[%d]" % k]
        u.requires(between(0, l, 3), between(0, r, 3), iff(eq(l, 1), eq(r, 1)))
        u.hint(r"boundary_.hs\[%d\]" % k, (0, 0) if k else (1, 1))
        lo, hi = b["min[%d]" % k], b["max[%d]" % k]
        u.requires(lt(lo, hi))
        u.hint(r"box.min", (-5, -4))
        u.hint(r"box.max", (4, 5))
        b.set("size[%d]" % k, hi - lo)
        b.set("half[%d]" % k, (hi - lo) / 2)
        per.append((eq(l, 1), hi - lo))
    b.set("PeriodicGravity", 0)

    def img(dr):
        out = []
        for k, x in enumerate(dr):
            p, L = per[k]
            out.append(ite(and_(p, x * 2 > L), x - L, ite(and_(p, x * 2 < -L), x + L, x)))
        return out
    return b, img


def pair(kind, d, img, kern, ri, vi, hi, rj, vj, hj, mj, eps=0):
    """potential, acceleration and jerk that j exerts on i"""
    dr = img(sub(rj, ri))
    dv = sub(vj, vi)
    r = sqrt(dot(dr, dr)) + eps
    ir = inv(r)
    rdot = dot(dv, dr) * ir
    if kind == "newton":
        pot = mj * ir
        fac = mj * ir * ir * ir
        dfac = -3 * fac * rdot * ir
    else:
        ih = 2 / (S(hi) + hj)
        fac = mj * ih * ih * kern["wgrav"](r * ih) * ir
        pot = mj * ih * kern["wpot"](r * ih)
        ihd = S(F(1))
        for _ in range(d):
            ihd = ihd * ih
        # d/dt of wgrav(r/h)/(h^2 r), with d wgrav/ds = 4 pi w - 2 wgrav/s (C01)
        dfac = -3 * fac * rdot * ir + 2 * TWOPI * mj * rdot * (kern["w0"](r * ih) * ihd) * ir
    acc = [fac * x for x in dr]
    jerk = [fac * y + dfac * x for x, y in zip(dr, dv)]
    return pot, acc, jerk


FORCE = [("Nbody<%d>::CalculateDirectGravForces", "Nbody<%d>", "newton", 0)] + \
        [(c + "<%d, M4Kernel>::CalculateDirectSmoothedGravForces", c + "<%d, M4Kernel>", "soft", e) for c, e in
         (("NbodyHermite4", 0), ("NbodyHermite6TS", 0), ("NbodyLeapfrogKDK", SMALL), ("NbodyLeapfrogDKD", SMALL))]


@P.unit("star_forces", [(i, d) for i in range(len(FORCE)) for d in (1, 2, 3)])
def sforce(u, i, d):
    """every active star receives, from every other star exactly once, the potential, acceleration and jerk of the pair law through
    the nearest image; inactive stars and every other field are untouched"""
    fn, cls, kind, eps = FORCE[i]
    N, a, pa, nb = stars(u, d, cls)
    b, img = openbox(u, d)
    kern = kernel(u, d, ("w0", "wgrav", "wpot"), owner=nb) if kind == "soft" else {}
    if u.concrete and kind != "soft":
        pass
    u.hint(r"star.h", (0.5, 1.0))
    u.hint(r"star.flags", lambda r: r.choice([2, 2, 2, 0]))
    u.requires_forall(a.leaf("h"), lambda j: gt(a[j].at(u.st, "h"), 0), N)

    def term(i_, j):
        s0 = lambda j_, f: a[j_].at(u.st, f)
        v = lambda j_, q: [s0(j_, "%s[%d]" % (q, k)) for k in range(d)]
        return pair(kind, d, img, kern, v(i_, "r"), v(i_, "v"), s0(i_, "h"), v(j, "r"), v(j, "v"), s0(j, "h"), s0(j, "m"), eps)
    sums = {}
    sums["gpot"] = GSum(u, "gpot", lambda i_, j: ite(eq(i_, j), F(0), term(i_, j)[0]), 1)
    for k in range(d):
        sums["a[%d]" % k] = GSum(u, "a%d" % k, lambda i_, j, k=k: ite(eq(i_, j), F(0), term(i_, j)[1][k]), 1)
        sums["adot[%d]" % k] = GSum(u, "adot%d" % k, lambda i_, j, k=k: ite(eq(i_, j), F(0), term(i_, j)[2][k]), 1)
    act = lambda j: hasbit(a[j].at(u.st, "flags._flag"), ACTIVE)
    spec = {f: (lambda old, j, f=f: ite(act(j), old(f) + sums[f](j, N), old(f))) for f in sums}
    u.loops(elementwise(u, a, spec), accum(u, a, sums))
    u.options(merge_joins=True)
    ew = u.obj("ewald", "Ewald<%d>" % d)
    for o in u.call(fn % d, nb, N, pa, b, ew):
        elementwise_post(u, o, a, spec, N)


def accum(u, a, sums):
    """inner loop over j: the fields of star i have accumulated the first K terms, everything else is untouched"""
    def inner(c, mode):
        ii = S(c.outer())
        r = []
        for f in sums:
            def fa(j, f=f):
                j = S(j)
                old, new = a[j].at(c.entry, f), a[j].at(c.cur, f)
                return T.and_(implies(eq(j, ii), eq(new, old + sums[f](ii, S(c.K)))), implies(ne(j, ii), eq(new, old)))
            r.append((f, ("forall", a.leaf(f), fa)))
        return r
    return inner


def derivs(d, m, dr, dv, da=None, dj=None):
    """Newtonian acceleration of a point mass at dr moving with dv (da, dj), and its first (second, third) time derivatives; softened by
    the code's small number"""
    r2 = dot(dr, dr) + SMALLDP
    i2 = inv(r2)
    out = {}
    i1 = sqrt(i2)
    acc = [m * x * i1 * i1 * i1 for x in dr]
    rd = dot(dv, dr)
    jerk = [m * i1 * i1 * i1 * (y - 3 * rd * i2 * x) for x, y in zip(dr, dv)]
    snap = crackle = None
    if da is not None:
        al = rd * i2
        be = (dot(dv, dv) + dot(dr, da)) * i2 + al * al
        snap = [m * w * i2 * i1 - 6 * al * y - 3 * be * x for w, y, x in zip(da, jerk, acc)]
        if dj is not None:
            ga = (3 * dot(dv, da) + dot(dr, dj)) * i2 + al * (3 * be - 4 * al * al)
            crackle = [m * w * i2 * i1 - 9 * al * z - 9 * be * y - 3 * ga * x for w, z, y, x in zip(dj, snap, jerk, acc)]
    return acc, jerk, snap, crackle


def newsums(u, d, names, term):
    r = {}
    for q in names:
        for k in range(d):
            r["%s[%d]" % (q, k)] = GSum(u, q, lambda i_, j, q=q, k=k: ite(eq(i_, j), F(0), term(i_, j)[q][k]), 1)
    return r


@P.unit("hermite6_forces", [(d,) for d in (1, 2, 3)])
def force6(u, d):
    """6th-order Hermite: potential, acceleration, jerk and then the snap, each summed over every other star through the nearest image"""
    N, a, pa, nb = stars(u, d, "NbodyHermite6TS<%d, M4Kernel>")
    b, img = openbox(u, d)
    u.hint(r"star.flags", lambda r: r.choice([2, 2, 2, 0]))
    s0 = lambda j_, f: a[j_].at(u.st, f)
    vec = lambda j_, q: [s0(j_, "%s[%d]" % (q, k)) for k in range(d)]
    act = lambda j: hasbit(s0(j, "flags._flag"), ACTIVE)

    def t1(i_, j):
        dr, dv = img(sub(vec(j, "r"), vec(i_, "r"))), sub(vec(j, "v"), vec(i_, "v"))
        r2 = dot(dr, dr) + SMALLDP
        ir = inv(sqrt(r2))
        fac = s0(j, "m") * ir * ir * ir
        return {"gpot": [s0(j, "m") * ir], "a": [fac * x for x in dr], "adot": [fac * (y - 3 * dot(dv, dr) * ir * ir * x) for x, y in zip(dr, dv)]}
    s1 = newsums(u, d, ("a", "adot"), t1)
    s1["gpot"] = GSum(u, "gpot", lambda i_, j: ite(eq(i_, j), F(0), t1(i_, j)["gpot"][0]), 1)
    anew = lambda j_: [ite(act(j_), x + s1["a[%d]" % k](j_, N), x) for k, x in enumerate(vec(j_, "a"))]

    def t2(i_, j):
        dr, dv = img(sub(vec(j, "r"), vec(i_, "r"))), sub(vec(j, "v"), vec(i_, "v"))
        return {"a2dot": derivs(d, s0(j, "m"), dr, dv, sub(anew(j), anew(i_)))[2]}
    s2 = newsums(u, d, ("a2dot",), t2)
    spec1 = {f: (lambda old, j, f=f: ite(act(j), old(f) + s1[f](j, N), old(f))) for f in s1}
    spec2 = {f: (lambda old, j, f=f: ite(act(j), s2[f](j, N), old(f))) for f in s2}
    u.loops(elementwise(u, a, spec1), accum(u, a, s1), elementwise(u, a, spec2), accum(u, a, s2))
    u.options(merge_joins=True)
    ew = u.obj("ewald", "Ewald<%d>" % d)
    for o in u.call("NbodyHermite6TS<%d, M4Kernel>::CalculateDirectGravForces" % d, nb, N, pa, b, ew):
        elementwise_post(u, o, a, dict(spec1, **spec2), N)


@P.unit("startup_derivatives", [(c, d) for c in ("NbodyHermite4", "NbodyHermite6TS") for d in (1, 2, 3)])
def startup(u, c, d):
    """second and third time derivative of the acceleration before the first step: summed over every other star"""
    N, a, pa, nb = stars(u, d, c + "<%d, M4Kernel>")
    b, img = openbox(u, d)
    s0 = lambda j_, f: a[j_].at(u.st, f)
    vec = lambda j_, q: [s0(j_, "%s[%d]" % (q, k)) for k in range(d)]

    def term(i_, j):
        D = lambda q: sub(vec(j, q), vec(i_, q))
        r = derivs(d, s0(j, "m"), img(D("r")), D("v"), D("a"), D("adot"))
        return {"a2dot": r[2], "a3dot": r[3]}
    s = newsums(u, d, ("a2dot", "a3dot"), term)
    spec = {f: (lambda old, j, f=f: s[f](j, N)) for f in s}
    u.loops(elementwise(u, a, spec), accum(u, a, s))
    u.options(merge_joins=True)
    ew = u.obj("ewald", "Ewald<%d>" % d)
    for o in u.call("%s<%d, M4Kernel>::CalculateAllStartupQuantities" % (c, d), nb, N, pa, b, ew):
        elementwise_post(u, o, a, spec, N)


# ------------------------------------------------------------------ integrators
INT = ("NbodyHermite4", "NbodyHermite6TS", "NbodyLeapfrogKDK", "NbodyLeapfrogDKD")
NVEC = ("r0", "v0", "a0", "adot0", "apert", "adotpert")


def setup(u, cls, d):
    N, a, pa, nb = stars(u, d, cls + "<%d, M4Kernel>")
    n = u.int("n", hint=(0, 4)); t = u.real("t", hint=(1, 2)); ts = u.real("timestep")
    u.hint(r"star.*tlast", (0, 1)); u.hint(r"star.*(nlast|nstep)", (0, 2))
    u.hint(r"star.flags", lambda r: r.choice([0, 2, 4, 6]))
    u.requires_forall(a.leaf("tlast"), lambda j: lt(a[j].at(u.st, "tlast"), t), N)
    return N, a, pa, nb, n, t, ts


def run(u, fn, N, a, pa, nb, n, t, ts, spec):
    u.loops(elementwise(u, a, spec))
    u.options(merge_joins=True)
    for o in u.call(fn, nb, n, N, t, ts, pa):
        elementwise_post(u, o, a, spec, N)


@P.unit("predictor", [(c, d) for c in INT for d in (1, 2, 3)])
def predict(u, c, d):
    """AdvanceParticles moves every star to time t by the Taylor polynomial of its order from the state at the beginning of its own step, and
    marks as active exactly the stars whose force is due (end of step; drift-kick-drift: half step)"""
    N, a, pa, nb, n, t, ts = setup(u, c, d)
    S_ = {}
    last = {"NbodyHermite4": 1, "NbodyHermite6TS": 2, "NbodyLeapfrogKDK": 0, "NbodyLeapfrogDKD": None}[c]
    for k in range(d):
        def der(old):
            return [old("%s[%d]" % (q, k)) for q in ("r0", "v0", "a0", "adot0", "a2dot0")]

        def series(cs, dt):
            s = S(F(0)); f = F(1); p = S(F(1))
            for i, x in enumerate(cs):
                if i:
                    f *= i; p = p * dt
                s = s + x * p / f
            return s

        def rr(old, j, k=k):
            dt = t - old("tlast")
            q = [old("%s[%d]" % (x, k)) for x in ("r0", "v0", "a0", "adot0", "a2dot0")]
            if last is not None:
                return series(q[:last + 3], dt)
            end = ge(n - old("nlast"), old("nstep"))
            return ite(end, q[0] + q[1] * dt + old("a[%d]" % k) * dt * dt / 2, q[0] + q[1] * dt)

        def vv(old, j, k=k):
            dt = t - old("tlast")
            q = [old("%s[%d]" % (x, k)) for x in ("v0", "a0", "adot0", "a2dot0")]
            if last is not None:
                return series(q[:last + 2], dt)
            return q[0] + old("a[%d]" % k) * dt
        S_["r[%d]" % k] = rr
        S_["v[%d]" % k] = vv

    def fl(old, j):
        f = old("flags._flag"); dn = n - old("nlast"); ns = old("nstep")
        due = eq(dn, ns) if last is not None else or_(and_(ge(ns, 0), or_(eq(dn * 2, ns), eq(dn * 2 + 1, ns))), and_(lt(ns, 0), or_(eq(dn * 2, ns), eq(dn * 2 - 1, ns))))
        return ite(due, setbit(f, ACTIVE), clrbit(f, ACTIVE))
    S_["flags._flag"] = fl
    run(u, "%s<%d, M4Kernel>::AdvanceParticles" % (c, d), N, a, pa, nb, n, t, ts, S_)


def her4(a0, j0, a1, j1, dt):
    """second and third derivative of the cubic acceleration through both ends"""
    i = inv(dt)
    return (-6 * (a0 - a1) - dt * (4 * j0 + 2 * j1)) * i * i, (12 * (a0 - a1) + 6 * dt * (j0 + j1)) * i * i * i


def her6(a0, j0, s0, a1, j1, s1, dt):
    return dt * (a0 + a1) / 2 - dt * dt * (j1 - j0) / 10 + dt * dt * dt * (s0 + s1) / 120


@P.unit("corrector", [(c, d) for c in ("NbodyHermite4", "NbodyHermite4TS", "NbodyHermite6TS", "NbodyLeapfrogKDK") for d in (1, 2, 3)])
def correct(u, c, d):
    """CorrectionTerms: for the stars at the end of their step (and no others) velocity and position become those of the interpolating
    polynomial through the accelerations (and derivatives) at both ends of the step"""
    N, a, pa, nb, n, t, ts = setup(u, c, d)
    S_ = {}

    def at_end(f):
        def g(old, j, k, name):
            return ite(eq(n - old("nlast"), old("nstep")), f(old, k, t - old("tlast")), old("%s[%d]" % (name, k)))
        return g
    o_ = lambda old, k, *q: [old("%s[%d]" % (x, k)) for x in q]
    h4 = lambda old, k, dt: her4(*o_(old, k, "a0", "adot0", "a", "adot"), dt)
    ex = {}
    if c in ("NbodyHermite4", "NbodyHermite4TS"):
        ex["a2dot"] = lambda old, k, dt: h4(old, k, dt)[0]
        ex["a3dot"] = lambda old, k, dt: h4(old, k, dt)[1]
    if c == "NbodyHermite4":
        ex["r"] = lambda old, k, dt: old("r[%d]" % k) + h4(old, k, dt)[0] * dt ** 4 / 24 + h4(old, k, dt)[1] * dt ** 5 / 120
        ex["v"] = lambda old, k, dt: old("v[%d]" % k) + h4(old, k, dt)[0] * dt ** 3 / 6 + h4(old, k, dt)[1] * dt ** 4 / 24
    elif c == "NbodyHermite4TS":
        def v4(old, k, dt):
            a0, j0, a1, j1, v0 = o_(old, k, "a0", "adot0", "a", "adot", "v0")
            return v0 + (a0 + a1) * dt / 2 - (j1 - j0) * dt * dt / 12

        def r4(old, k, dt):
            a0, a1, v0, r0 = o_(old, k, "a0", "a", "v0", "r0")
            return r0 + (v0 + v4(old, k, dt)) * dt / 2 - (a1 - a0) * dt * dt / 12
        ex["v"] = v4; ex["r"] = r4
    elif c == "NbodyHermite6TS":
        def v6(old, k, dt):
            return old("v0[%d]" % k) + her6(*o_(old, k, "a0", "adot0", "a2dot0", "a", "adot", "a2dot"), dt)

        def r6(old, k, dt):
            r0, v0, a0, j0, a1, j1 = o_(old, k, "r0", "v0", "a0", "adot0", "a", "adot")
            return r0 + her6(v0, a0, j0, v6(old, k, dt), a1, j1, dt)
        ex["a3dot"] = lambda old, k, dt: h4(old, k, dt)[1]
        ex["v"] = v6; ex["r"] = r6
    else:
        ex["v"] = lambda old, k, dt: old("v[%d]" % k) + (old("a[%d]" % k) - old("a0[%d]" % k)) * dt / 2
    for name, f in ex.items():
        for k in range(d):
            S_["%s[%d]" % (name, k)] = lambda old, j, f=f, k=k, name=name: at_end(f)(old, j, k, name)
    run(u, "%s<%d, M4Kernel>::CorrectionTerms" % (c, d), N, a, pa, nb, n, t, ts, S_)


@P.unit("scheme_order")
def order(u):
    """lemmas over the corrector contracts: the fourth-order scheme is exact for accelerations cubic in time, the sixth-order one for
    quintic ones, kick-drift-kick for linear ones (velocity), and the derivatives returned interpolate both ends"""
    c = [u.real("c%d" % i) for i in range(8)]
    dt = u.real("dt", lo=F(1, 10), hi=2)
    u.requires(gt(dt, 0))

    def der(deg, m, x):
        """m-th derivative at x of sum c_i x^i/i!"""
        s = S(F(0)); f = F(1)
        for i in range(m, deg + 1):
            if i > m:
                f *= i - m
            s = s + c[i] * (S(x) ** (i - m) if i > m else S(F(1))) / f
        return s

    def integral(deg, x):
        s = S(F(0)); f = F(1)
        for i in range(deg + 1):
            f *= i + 1
            s = s + c[i] * S(x) ** (i + 1) / f
        return s
    a0, j0, a1, j1 = der(3, 0, 0 * dt), c[1], der(3, 0, dt), der(3, 1, dt)
    c2, c3 = her4(c[0], c[1], a1, j1, dt)
    u.lemma("second derivative recovered", eq(c2, c[2]))
    u.lemma("third derivative recovered", eq(c3, c[3]))
    u.lemma("predictor+corrector velocity exact for cubic acceleration", eq(c[0] * dt + c[1] * dt * dt / 2 + c2 * dt ** 3 / 6 + c3 * dt ** 4 / 24, integral(3, dt)))
    u.lemma("quadrature exact for cubic acceleration", eq((c[0] + a1) * dt / 2 - (j1 - c[1]) * dt * dt / 12, integral(3, dt)))
    u.lemma("sixth order quadrature exact for quintic acceleration", eq(her6(c[0], c[1], c[2], der(5, 0, dt), der(5, 1, dt), der(5, 2, dt), dt), integral(5, dt)))
    u.lemma("trapezoidal rule exact for linear acceleration", eq(c[0] * dt + (der(1, 0, dt) - c[0]) * dt / 2, integral(1, dt)))


@P.unit("end_of_step", [(c, d) for c in INT for d in (1, 2, 3)])
def endstep(u, c, d):
    """EndTimestep: exactly the stars flagged end_timestep start a new step from the current state and time"""
    N, a, pa, nb, n, t, ts = setup(u, c, d)
    S_ = {}
    end = lambda old: hasbit(old("flags._flag"), ENDSTEP)

    def cp(dst, src):
        S_[dst] = lambda old, j: ite(end(old), old(src) if isinstance(src, str) else src, old(dst))
    for k in range(d):
        for x in ("r", "v", "a") + (("adot",) if c != "NbodyLeapfrogDKD" else ()) + (("a2dot",) if c == "NbodyHermite6TS" else ()):
            cp("%s0[%d]" % (x, k), "%s[%d]" % (x, k))
        if c != "NbodyLeapfrogDKD":
            cp("apert[%d]" % k, F(0)); cp("adotpert[%d]" % k, F(0))
    cp("nlast", n); cp("tlast", t); cp("dt", "dt_next"); cp("dt_next", F(0))
    S_["flags._flag"] = lambda old, j: ite(end(old), clrbit(clrbit(old("flags._flag"), ACTIVE), ENDSTEP), old("flags._flag"))
    run(u, "%s<%d, M4Kernel>::EndTimestep" % (c, d), N, a, pa, nb, n, t, ts, S_)


@P.unit("perturber_correction", [(c, d) for c in ("NbodyHermite4", "NbodyLeapfrogKDK") for d in (1, 2, 3)])
def pertcorr(u, c, d):
    """PerturberCorrectionTerms: at the end of a step the perturber impulse accumulated over the step is added as a mean force"""
    N, a, pa, nb, n, t, ts = setup(u, c, d)
    S_ = {}
    for k in range(d):
        for x, p in (("a", "apert"),) + ((("adot", "adotpert"),) if c == "NbodyHermite4" else ()):
            S_["%s[%d]" % (x, k)] = lambda old, j, x="%s[%d]" % (x, k), p="%s[%d]" % (p, k): ite(eq(n - old("nlast"), old("nstep")), old(x) + old(p) * inv(t - old("tlast")), old(x))
    run(u, "%s<%d, M4Kernel>::PerturberCorrectionTerms" % (c, d), N, a, pa, nb, n, t, ts, S_)
