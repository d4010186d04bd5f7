"""C06 time integration of gas particles: leapfrog kick-drift-kick, drift-kick-drift and the finite-volume update, particle timesteps"""
from fractions import Fraction as F
from gvc.runner import Property
from gvc.unit import Reject
from .common import *

SRC = ["Hydrodynamics/SphLeapfrogKDK.cpp", "Hydrodynamics/SphLeapfrogDKD.cpp", "Hydrodynamics/SphIntegration.cpp", "MeshlessFV/MfvIntegration.cpp", "MeshlessFV/MeshlessFV.cpp", "Thermal/AdiabaticEOS.cpp", "GradhSph/GradhSph.cpp", "SM2013/SM2012Sph.cpp"]
PT = ("GradhSphParticle", "SM2012SphParticle")
CLS = ["%s<%d>" % (c, d) for d in (1, 2, 3) for c in PT + ("MeshlessFVParticle", "Particle", "SphParticle", "Adiabatic", "EOS", "SphIntegration")]
CLS += ["%s<%d, M4Kernel>" % (c, d) for d in (1, 2, 3) for c in ("GradhSph", "SM2012Sph")]
CLS += ["%s<%d, %s>" % (c, d, p) for d in (1, 2, 3) for c in ("SphLeapfrogKDK", "SphLeapfrogDKD") for p in PT]
CLS += ["MfvIntegration<%d, MeshlessFVParticle>" % d for d in (1, 2, 3)]
CLS += ["MfvMuscl<%d, M4Kernel, GizmoLimiter<%d>>" % (d, d) for d in (1, 2, 3)]
P = Property("C06", SRC + ["MeshlessFV/MfvMuscl.cpp"], ["Integration.h", "Sph.h", "MeshlessFV.h", "EOS.h"], CLS)
SPH = [(p, d) for p in PT for d in (1, 2, 3)]
END = 4
SMALL, SMALLDP = lit(1e-20), lit(1e-50)


def setup(u, scheme, p, d):
    N = u.int("N", lo=0, hint=(0, 3))
    sc = p.replace("Particle", "") + "<%d, M4Kernel>" % d
    h = u.obj("sph", sc)
    a = u.array("part", "%s<%d>" % (p, d), N)
    u.vtable(h, sc)
    sz = u.lay.sizeof("%s<%d>" % (p, d))
    for f in ("size_hydro_part", "size_sph_part"):
        h.set(f, sz)
    for f in ("hydrodata_unsafe", "sphdata_unsafe", "sphdata"):
        h.set(f, a.ptr())
    h.set("Nhydro", N)
    it = u.obj("integrator", "%s<%d, %s>" % (scheme, d, p))
    n, t, dt = u.int("n", lo=0, hi=10**6, hint=(0, 6)), u.real("t"), u.real("timestep")
    u.hint(r"part\.(nlast|nstep)", lambda r: r.choice([0, 1, 2, 3]))
    u.hint(r"part\.flags", lambda r: r.choice([0, 1, 2, 8, 10, 3]))
    u.hint(r"part\.(level|levelneib)", lambda r: r.randint(0, 4))
    u.options(merge_joins=True)
    return N, h, a, it, n, t, dt


def dead(old):
    return hasbit(old("flags._flag"), DEAD)


def unless_dead(spec):
    return {f: (lambda old, j, fn=fn, f=f: ite(dead(old), old(f), fn(old))) for f, fn in spec.items()}


def flagset(old, cond, bit=ACTIVE):
    fl = old("flags._flag")
    return ite(cond, setbit(fl, bit), clrbit(fl, bit))


def energy(it):
    return ne(it["energy_integration"], 0)


def run(u, fn, spec, N, h, a, *args, loops=None):
    u.loops(*(loops or [elementwise(u, a, spec)]))
    for o in u.call(fn, *args):
        elementwise_post(u, o, a, spec, N)


@P.unit("kdk_advance", SPH)
def kdk_advance(u, p, d):
    """kick-drift-kick prediction: second order in position, first order in velocity and internal energy, from the start of the particle's own step"""
    N, h, a, it, n, t, dt = setup(u, "SphLeapfrogKDK", p, d)
    tau = lambda o: t - o("tlast")
    sp = {}
    for k in range(d):
        K = "[%d]" % k
        sp["r" + K] = lambda o, K=K: o("r0" + K) + o("v0" + K) * tau(o) + o("a0" + K) * tau(o) * tau(o) / 2
        sp["v" + K] = lambda o, K=K: o("v0" + K) + o("a0" + K) * tau(o)
    sp["alpha"] = lambda o: ite(ne(it["tdavisc"], 0), o("alpha") + o("dalphadt") * dt, o("alpha"))
    sp["u"] = lambda o: ite(energy(it), o("u0") + o("dudt0") * tau(o), o("u"))
    sp["flags._flag"] = lambda o: flagset(o, eq(n - o("nlast"), o("nstep")))
    run(u, "SphLeapfrogKDK<%d, %s>::AdvanceParticles" % (d, p), unless_dead(sp), N, h, a, it, n, t, dt, h)


@P.unit("dkd_advance", SPH)
def dkd_advance(u, p, d):
    """drift-kick-drift: drift with the initial velocity before the end of the step, with the mean of initial and final velocity at its end"""
    N, h, a, it, n, t, dt = setup(u, "SphLeapfrogDKD", p, d)
    tau = lambda o: t - o("tlast")
    sp = {}
    for k in range(d):
        K = "[%d]" % k
        vn = lambda o, K=K: o("v0" + K) + o("a" + K) * tau(o)
        sp["v" + K] = vn
        sp["r" + K] = lambda o, K=K, vn=vn: o("r0" + K) + ite(lt(n - o("nlast"), o("nstep")), o("v0" + K), (o("v0" + K) + vn(o)) / 2) * tau(o)
    sp["alpha"] = lambda o: ite(ne(it["tdavisc"], 0), o("alpha") + o("dalphadt") * dt, o("alpha"))
    sp["u"] = lambda o: ite(energy(it), o("u0") + o("dudt") * tau(o), o("u"))
    sp["flags._flag"] = lambda o: flagset(o, half(n - o("nlast"), o("nstep")))
    u.requires_forall(a.leaf("nstep"), lambda j: ge(a[j].at(u.st, "nstep"), 0), N)
    run(u, "SphLeapfrogDKD<%d, %s>::AdvanceParticles" % (d, p), unless_dead(sp), N, h, a, it, n, t, dt, h)


def half(dn, nstep):
    """dn is half of nstep (rounded down)"""
    return or_(eq(2 * dn, nstep), eq(2 * dn + 1, nstep))


def corrected(it):
    """second-order correction of the internal energy, first order where it would not stay positive"""
    def f(o):
        u2 = o("u") + (o("dudt") - o("dudt0")) * o("dt") / 2
        return ite(energy(it), ite(le(u2, 0), o("u0") + o("dudt0") * o("dt"), u2), o("u"))
    return f


@P.unit("kdk_correction", SPH)
def kdk_correct(u, p, d):
    """correction at the end of the step: v and u are advanced with the mean of the derivatives at the start and the end of the step"""
    N, h, a, it, n, t, dt = setup(u, "SphLeapfrogKDK", p, d)
    done = lambda o: eq(n - o("nlast"), o("nstep"))
    un_ = corrected(it)
    sp = {}
    for k in range(d):
        K = "[%d]" % k
        sp["v" + K] = lambda o, K=K: o("v" + K) + ite(done(o), o("dt") * (o("a" + K) - o("a0" + K)) / 2, 0)
    e = lambda o: and_(done(o), energy(it))
    sp["u"] = lambda o: ite(done(o), un_(o), o("u"))
    sp["u0"] = lambda o: ite(e(o), un_(o), o("u0"))
    sp["dudt0"] = lambda o: ite(e(o), o("dudt"), o("dudt0"))
    run(u, "SphLeapfrogKDK<%d, %s>::CorrectionTerms" % (d, p), unless_dead(sp), N, h, a, it, n, t, dt, h)


def endstep(sp, n, t):
    """bookkeeping at the end of a particle's step"""
    sp["nlast"] = lambda o: n
    sp["tlast"] = lambda o: t
    sp["dt"] = lambda o: o("dt_next")
    sp["dt_next"] = lambda o: F(0)
    sp["flags._flag"] = lambda o: clrbit(clrbit(o("flags._flag"), ACTIVE), END)
    return {f: (lambda o, f=f, fn=fn: ite(hasbit(o("flags._flag"), END), fn(o), o(f))) for f, fn in sp.items()}


@P.unit("kdk_end", SPH)
def kdk_end(u, p, d):
    """end of a kick-drift-kick step: velocity and energy corrected to second order, the new state becomes the start of the next step"""
    N, h, a, it, n, t, dt = setup(u, "SphLeapfrogKDK", p, d)
    un_ = corrected(it)
    sp = {}
    for k in range(d):
        K = "[%d]" % k
        vn = lambda o, K=K: o("v" + K) + o("dt") * (o("a" + K) - o("a0" + K)) / 2
        sp["v" + K] = sp["v0" + K] = vn
        sp["r0" + K] = lambda o, K=K: o("r" + K)
        sp["a0" + K] = lambda o, K=K: o("a" + K)
    sp["u"] = un_
    sp["u0"] = lambda o: ite(energy(it), un_(o), o("u0"))
    sp["dudt0"] = lambda o: ite(energy(it), o("dudt"), o("dudt0"))
    run(u, "SphLeapfrogKDK<%d, %s>::EndTimestep" % (d, p), unless_dead(endstep(sp, n, t)), N, h, a, it, n, t, dt, h)


@P.unit("dkd_end", SPH)
def dkd_end(u, p, d):
    N, h, a, it, n, t, dt = setup(u, "SphLeapfrogDKD", p, d)
    sp = {}
    for k in range(d):
        K = "[%d]" % k
        for q in "rva":
            sp[q + "0" + K] = lambda o, K=K, q=q: o(q + K)
    sp["u0"] = lambda o: ite(energy(it), o("u"), o("u0"))
    run(u, "SphLeapfrogDKD<%d, %s>::EndTimestep" % (d, p), unless_dead(endstep(sp, n, t)), N, h, a, it, n, t, dt, h)


@P.unit("set_active", [(s, p, d) for s in ("SphLeapfrogKDK", "SphLeapfrogDKD") for p, d in SPH])
def set_active(u, s, p, d):
    """forces are due at the end of the step (kick-drift-kick) or at its midpoint (drift-kick-drift)"""
    N, h, a, it, n, t, dt = setup(u, s, p, d)
    if s.endswith("KDK"):
        due = lambda o: or_(hasbit(o("flags._flag"), END), eq(n - o("nlast"), o("nstep")))
    else:
        due = lambda o: half(n - o("nlast"), o("nstep"))
        u.requires_forall(a.leaf("nstep"), lambda j: ge(a[j].at(u.st, "nstep"), 0), N)
    run(u, "%s<%d, %s>::SetActiveParticles" % (s, d, p), {"flags._flag": lambda o, j: flagset(o, due(o))}, N, h, a, it, n, h)


@P.unit("timestep", [(1,), (2,), (3,)])
def timestep(u, d):
    """gas timestep: minimum of the Courant, acceleration and energy limits, always positive"""
    sp = u.obj("sph", "GradhSph<%d, M4Kernel>" % d)
    it = u.obj("integrator", "SphIntegration<%d>" % d)
    g = u.obj("part", "GradhSphParticle<%d>" % d)
    u.hint(r"part\.(h|sound|u)$", (0.1, 2)); u.hint(r"integrator\..*mult", (0.1, 0.5)); u.hint("part.ptype", lambda r: r.choice([0, 0, 3])); u.hint("sph.(hydro_forces|avisc)", lambda r: r.randint(0, 2))
    u.requires(gt(g["h"], 0), gt(g["sound"], 0), gt(g["u"], 0), *[gt(it[m + "_mult"], 0) for m in ("accel", "courant", "energy")])
    dv = g["h"] * absr(g["div_v"])
    acc = [g["a[%d]" % k] for k in range(d)]
    am = sqrt(dot(acc, acc))
    tc = it["courant_mult"] * g["h"] * inv(ite(eq(sp["hydro_forces"], 1), g["sound"] + dv, dv) + SMALLDP)
    ta = it["accel_mult"] * sqrt(g["h"] * inv(am + SMALLDP))
    te = it["energy_mult"] * (g["u"] * inv(absr(g["dudt"]) + SMALL))
    want = minr(tc, ta)
    want = ite(and_(energy(it), eq(g["ptype"], 0)), minr(want, te), want)
    for o in u.call("SphIntegration<%d>::Timestep" % d, it, g, sp, allow_abort=True):
        u.ensure(o, "minimum of the Courant, acceleration and energy conditions", eq(o.ret, want))
        u.ensure(o, "positive", gt(o.ret, 0))
        u.frame(o, g, [])


@P.unit("reduce_timesteps", [(s, p, d) for s in ("SphLeapfrogKDK", "SphLeapfrogDKD") for p, d in SPH])
def check_steps(u, s, p, d):
    """a particle in mid-step whose neighbours are more than level_diff_max levels finer ends its step now, when that is synchronised"""
    N, h, a, it, n, t, dt = setup(u, s, p, d)
    diff, lstep = u.int("level_diff_max", lo=0, hi=20, hint=(0, 2)), u.int("level_step", lo=0, hi=30, hint=(3, 6))
    at = lambda j, f: a[j].at(u.st, f)
    u.requires_forall(a.leaf("nlast"), lambda j: and_(ge(at(j, "nlast"), 0), le(at(j, "nlast"), n)), N)
    u.requires_forall(a.leaf("levelneib"), lambda j: and_(ge(at(j, "levelneib"), 0), le(at(j, "levelneib"), lstep)), N)
    mult = 1 if s.endswith("KDK") else 2
    dn = lambda o: n - o("nlast")
    new = lambda o: o("levelneib") - diff
    step = lambda o: ipow2(u, lstep - new(o))
    red = lambda o: and_(not_(dead(o)), ne(dn(o), o("nstep")), gt(o("levelneib") - o("level"), diff), divides(u, step(o), mult * dn(o)))
    sp = {"nstep": lambda o: ite(and_(red(o), gt(dn(o), 0)), dn(o), o("nstep")),
          "level": lambda o: ite(red(o), new(o), o("level")),
          "flags._flag": lambda o: ite(red(o), setbit(o("flags._flag"), ACTIVE), o("flags._flag"))}
    sp = {f: (lambda o, j, fn=fn: fn(o)) for f, fn in sp.items()}
    cnt = GSum(u, "reduced", lambda j: ite(red(lambda f: at(j, f)), F(1), F(0)))
    el = elementwise(u, a, sp)

    def inv_(c, mode):
        return el(c, mode) + [("number reduced", eq(S(c.counters()[0]), cnt(S(c.K))))]
    u.loops(inv_)
    u.requires_forall(a.leaf("level"), lambda j: and_(ge(at(j, "level"), 0)), N)
    for o in u.call("%s<%d, %s>::CheckTimesteps" % (s, d, p), it, diff, lstep, n, dt, h):
        elementwise_post(u, o, a, sp, N)
        u.ensure(o, "number of particles reduced", eq(o.ret, cnt(N)))


def ipow2(u, e):
    return S(2 ** int(u.num(e))) if u.concrete else S(T.uf("pow2", z3.simplify(T.I(un(e))), sort="int"))


def divides(u, a, b):
    return S(int(u.num(b)) % int(u.num(a)) == 0) if u.concrete else eq(S(T.I(un(b)) % T.I(un(a))), 0)


MFVKW = dict()


def mfv_setup(u, d):
    N = u.int("N", lo=0, hint=(0, 3))
    h = u.obj("mfv", MFV % (d, d))
    a = u.array("part", "MeshlessFVParticle<%d>" % d, N)
    u.vtable(h, MFV % (d, d))
    h.set("size_hydro_part", u.lay.sizeof("MeshlessFVParticle<%d>" % d))
    for f in ("hydrodata_unsafe", "hydrodata"):
        h.set(f, a.ptr())
    h.set("Nhydro", N)
    eos = u.obj("eos", "Adiabatic<%d>" % d)
    u.vtable(eos, "Adiabatic<%d>" % d)
    u.requires(gt(eos["gamma"], 1)); u.hint("eos.gamma$", (1.1, 2))
    eos.set("gammam1", eos["gamma"] - 1)
    h.set("eos", eos.ptr())
    it = u.obj("integrator", "MfvIntegration<%d, MeshlessFVParticle>" % d)
    n, t, dt = u.int("n", lo=0, hi=10**6, hint=(0, 6)), u.real("t"), u.real("timestep")
    u.hint(r"part\.(nlast|nstep)", lambda r: r.choice([0, 1, 2, 3]))
    u.hint(r"part\.flags", lambda r: r.choice([0, 1, 2, 4, 6, 3]))
    u.hint(r"part\.ptype", lambda r: r.choice([0, 0, 3]))
    u.hint(r"part\.Qcons0\[%d\]" % (d + 1), (20, 40)); u.hint(r"part\.(dQ|dQdt|a|a0|rdmdt|rdmdt0)\[|part.cooling|part.dt|^timestep", (-0.2, 0.2))
    u.hint(r"part\.(ndens|Qcons0\[%d\]|Qcons0\[%d\]|m)" % (d, d + 1), (0.5, 3))
    u.options(merge_joins=True, assert_mode="learn")
    return N, h, a, it, n, t, dt, eos


def mfv_update(h, eos, d, hydro, Q):
    """primitive state that belongs to the conserved quantities Q (momentum, mass, total energy): m, rho, v, u, sound, pressure, Wprim"""
    RHO, ET = d, d + 1
    sp = {"m": lambda o: Q(o)[RHO], "rho": lambda o: Q(o)[RHO] * o("ndens")}
    v = lambda o, k: Q(o)[k] * inv(Q(o)[RHO])
    uu = lambda o: (Q(o)[ET] - Q(o)[RHO] * sumv([v(o, k) * v(o, k) for k in range(d)]) / 2) * inv(Q(o)[RHO])
    g, g1 = eos["gamma"], eos["gammam1"]
    pres = lambda o: ite(hydro(o), g1 * Q(o)[RHO] * o("ndens") * uu(o), o("pressure"))
    for k in range(d):
        sp["v[%d]" % k] = lambda o, k=k: v(o, k)
        sp["Wprim[%d]" % k] = lambda o, k=k: v(o, k)
    sp["Wprim[%d]" % RHO] = sp["rho"]
    sp["Wprim[%d]" % ET] = pres
    sp["u"] = lambda o: ite(hydro(o), uu(o), o("u"))
    sp["sound"] = lambda o: ite(hydro(o), sqrt(g * g1 * sp["u"](o)), o("sound"))
    sp["pressure"] = pres
    return sp


MFV = "MfvMuscl<%d, M4Kernel, GizmoLimiter<%d>>"


def ishydro(h, o):
    return or_(*[and_(eq(o("ptype"), k), ne(h["types._types[%d].hydro_forces" % k], 0)) for k in range(5)])


def mfv_ranges(u, h, a, N, d):
    at = lambda j, f: a[j].at(u.st, f)
    u.requires_forall(a.leaf("ptype"), lambda j: and_(ge(at(j, "ptype"), 0), le(at(j, "ptype"), 4)), N)


@P.unit("mfv_advance", [(1,), (2,), (3,)])
def mfv_advance(u, d):
    """finite-volume prediction: conserved quantities advanced from the start of the step with the fluxes, gravity and cooling; position by the mean velocity"""
    N, h, a, it, n, t, dt, eos = mfv_setup(u, d)
    mfv_ranges(u, h, a, N, d)
    RHO, ET = d, d + 1
    full = lambda o: eq(n - o("nlast"), o("nstep"))
    tau = lambda o: dt * (n - o("nlast"))
    hyd = lambda o: ishydro(h, o)

    def Q(o):
        q0 = [o("Qcons0[%d]" % k) for k in range(d + 2)]
        q = [q0[k] + ite(full(o), o("dQ[%d]" % k), o("dQdt[%d]" % k) * tau(o)) for k in range(d + 2)]
        a0 = [o("a0[%d]" % k) for k in range(d)]
        for k in range(d):
            q[ET] = q[ET] + tau(o) / 2 * (a0[k] * (q0[k] + q0[RHO] * a0[k] * o("dt") / 2) + a0[k] * (q[k] + q[RHO] * a0[k] * o("dt") / 2))
            q[k] = q[k] + (q0[RHO] + q[RHO]) * a0[k] * tau(o) / 2
        q[ET] = q[ET] - o("cooling") * tau(o)
        return q
    sp = mfv_update(h, eos, d, hyd, Q)
    static = ne(it["staticParticles"], 0)
    for k in range(d):
        K = "[%d]" % k
        sp["r" + K] = lambda o, K=K, vn=sp["v" + K]: ite(static, o("r" + K), o("r0" + K) + (o("v0" + K) + vn(o)) * tau(o) / 2)
    sp["flags._flag"] = lambda o: ite(static, flagset(o, full(o)), setbit(flagset(o, full(o)), 16))
    run(u, "MfvIntegration<%d, MeshlessFVParticle>::AdvanceParticles" % d, unless_dead(sp), N, h, a, it, n, t, dt, h)


@P.unit("mfv_end", [(1,), (2,), (3,)])
def mfv_end(u, d):
    """end of a finite-volume step: the exchanged fluxes, the gravitational kick (with the start and end acceleration), the work of gravity on
    the mass flux and the cooling are added once; the result is the start of the next step, and the flux sums start again from zero"""
    N, h, a, it, n, t, dt, eos = mfv_setup(u, d)
    mfv_ranges(u, h, a, N, d)
    RHO, ET = d, d + 1
    hyd = lambda o: ishydro(h, o)
    fin = lambda o: or_(eq(n - o("nlast"), o("nstep")), hasbit(o("flags._flag"), END))

    def Q(o):
        h_ = o("dt") / 2
        q0 = [o("Qcons0[%d]" % k) for k in range(d + 2)]
        q = [q0[k] + o("dQ[%d]" % k) for k in range(d + 2)]
        p = list(q)
        for k in range(d):
            a0, a1, w0, w1 = o("a0[%d]" % k), o("a[%d]" % k), o("rdmdt0[%d]" % k), o("rdmdt[%d]" % k)
            q[ET] = q[ET] + h_ * (a0 * (q0[k] + q0[RHO] * a0 * h_) + a1 * (p[k] + p[RHO] * a1 * h_)) + (a0 + a1) * w1 / 2
            q[k] = p[k] + h_ * (q0[RHO] * a0 + p[RHO] * a1)
        q[ET] = q[ET] - o("cooling") * o("dt")
        return q
    sp = mfv_update(h, eos, d, hyd, Q)
    for k in range(d):
        K = "[%d]" % k
        sp["v0" + K] = sp["v" + K]
        sp["r0" + K] = lambda o, K=K: o("r" + K)
        sp["a0" + K] = lambda o, K=K: o("a" + K)
        sp["rdmdt0" + K] = lambda o, K=K: o("rdmdt" + K)
        sp["rdmdt" + K] = lambda o: F(0)
    for k in range(d + 2):
        K = "[%d]" % k
        sp["dQ" + K] = sp["dQdt" + K] = lambda o: F(0)
        sp["Qcons0" + K] = lambda o, k=k: Q(o)[k]
    sp["cooling"] = sp["dt_next"] = lambda o: F(0)
    sp["nlast"] = lambda o: n
    sp["tlast"] = lambda o: t
    sp["dt"] = lambda o: o("dt_next")
    sp = {f: (lambda o, f=f, fn=fn: ite(fin(o), fn(o), o(f))) for f, fn in sp.items()}
    sp["flags._flag"] = lambda o: ite(fin(o), clrbit(setbit(o("flags._flag"), ACTIVE), END), clrbit(o("flags._flag"), ACTIVE))
    run(u, "MfvIntegration<%d, MeshlessFVParticle>::EndTimestep" % d, unless_dead(sp), N, h, a, it, n, t, dt, h)


@P.unit("mfv_set_active", [(1,), (2,), (3,)])
def mfv_active(u, d):
    N, h, a, it, n, t, dt, eos = mfv_setup(u, d)
    due = lambda o: or_(hasbit(o("flags._flag"), END), eq(n - o("nlast"), o("nstep")), eq(n, o("nlast")))
    run(u, "MfvIntegration<%d, MeshlessFVParticle>::SetActiveParticles" % d, {"flags._flag": lambda o, j: flagset(o, due(o))}, N, h, a, it, n, h)
