"""C02 equations of state: pressure, temperature, internal energy, sound speed and entropy are one consistent thermodynamic state."""
from fractions import Fraction as F
from gvc.runner import Property
from gvc.unit import Reject
from .common import *

SRC = ["Thermal/%s.cpp" % f for f in ("AdiabaticEOS", "IsothermalEOS", "PolytropicEOS", "BarotropicEOS", "Barotropic2EOS", "LocallyIsothermal", "DiscLocallyIsothermal", "IonisingRadiationEOS", "MCRadiationEOS")]
E = ("Adiabatic", "Isothermal", "Polytropic", "Barotropic", "Barotropic2")
CLS = ["%s<%d>" % (c, d) for d in (1, 2, 3) for c in E + ("EOS", "LocallyIsothermal", "DiscLocallyIsothermal", "IonisingRadiation", "MCRadiationEOS", "EosParticleProxy", "Nbody", "StarParticle", "Particle")] + ["Parameters", "SimUnits"]
P = Property("C02", SRC, ["EOS.h", "Nbody.h", "Parameters.h", "SimUnits.h"], CLS)
ALL = [(e, d) for e in E for d in (1, 2, 3)]


def pw(x, a):
    return uf("pow", S(x), S(a))


def proxy(u, d):
    u.hint(r"gas\.(rho|u|p)$", (0.2, 3))
    g = u.obj("gas", "EosParticleProxy<%d>" % d)
    u.requires(gt(g["rho"], 0), gt(g["u"], 0), gt(g["p"], 0), ge(g["ionfrac"], 0), le(g["ionfrac"], 1))
    u.hint("gas.ionfrac", (0, 1))
    return g


def eos(u, e, d, name="eos"):
    o = u.obj(name, "%s<%d>" % (e, d))
    u.hint(name + r"\.(gamma|gammam1)$", (1.1, 2)); u.hint(name + r"\.(temp|mu|Kpoly|rho_bary|invrho|norm|rin|slope|templaw)", (0.3, 2))
    u.requires(gt(o["gamma"], 1))
    o.set("gammam1", o["gamma"] - 1)
    if e == "Polytropic":
        o.set("eta", o["gamma"])                      # established by its constructor (unit construction)
        u.requires(gt(o["Kpoly"], 0))
    if e in ("Isothermal", "Barotropic", "Barotropic2", "LocallyIsothermal", "DiscLocallyIsothermal", "MCRadiationEOS"):
        u.requires(gt(o["temp0"], 0) if e != "DiscLocallyIsothermal" else True, gt(o["mu_bar"], 0))
    if e.startswith("Baro"):
        u.requires(gt(o["rho_bary"], 0))
        o.set("invrho_bary", inv(o["rho_bary"]))
    return o


def spec(o, e, g):
    """temperature, specific internal energy, squared sound speed, pressure that this gas law assigns to the state"""
    gm, g1 = o["gamma"], o["gamma"] - 1
    u_in, rho = g["u"], g["rho"]
    if e == "Adiabatic":
        return {"T": g1 * u_in, "u": u_in, "c2": gm * g1 * u_in, "P": g1 * rho * u_in}
    if e == "Isothermal":
        return {"T": o["temp0"], "u": o["temp0"] * inv(g1 * o["mu_bar"]), "c2": g1 * u_in, "P": g1 * rho * u_in}
    if e == "Polytropic":
        return {"T": g1 * u_in, "u": o["Kpoly"] * pw(rho, g1) * inv(g1), "c2": g1 * u_in, "P": o["Kpoly"] * pw(rho, gm)}
    x = pw(rho * inv(o["rho_bary"]), g1)
    T_ = o["temp0"] * (1 + x) if e == "Barotropic" else ite(lt(rho, o["rho_bary"]), o["temp0"], o["temp0"] * x)
    return {"T": T_, "u": T_ * inv(g1 * o["mu_bar"]), "c2": g1 * u_in, "P": g1 * rho * u_in}


@P.unit("state", ALL)
def state(u, e, d):
    """every function of the gas law at an arbitrary state"""
    g = proxy(u, d); o = eos(u, e, d)
    s = spec(o, e, g)
    cls = "%s<%d>" % (e, d)
    pc = cls if e == "Polytropic" else "EOS<%d>" % d
    for r in u.call(cls + "::Temperature", o, g):
        u.ensure(r, "temperature", eq(r.ret, s["T"]))
        u.frame(r, g, []); u.frame(r, o, [])
    for r in u.call(cls + "::SpecificInternalEnergy", o, g):
        u.ensure(r, "specific internal energy", eq(r.ret, s["u"]))
        u.frame(r, g, []); u.frame(r, o, [])
    for r in u.call(cls + "::SoundSpeed", o, g):
        u.ensure(r, "sound speed squared is that of the gas law", and_(eq(r.ret * r.ret, s["c2"]), ge(r.ret, 0)))
        u.frame(r, g, [])
    for r in u.call(pc + "::Pressure", o, g):
        u.ensure(r, "pressure", eq(r.ret, s["P"]))
        u.frame(r, g, [])
    for r in u.call(cls + "::EntropicFunction", o, g):
        u.ensure(r, "entropic function is P/rho^gamma", eq(r.ret, (o["gamma"] - 1) * g["u"] * pw(g["rho"], 1 - o["gamma"])))
    for r in u.call("EOS<%d>::InternalEnergyFromPressure" % d, o, g):
        u.ensure(r, "internal energy from pressure inverts P = (gamma-1) rho u", eq(r.ret * (o["gamma"] - 1) * g["rho"], g["p"]))


@P.unit("consistency", [(e,) for e in E])
def consistent(u, e):
    """lemmas over the contracts: with u set by the gas law, P = (gamma-1) rho u, c^2 = P/rho (adiabatic: gamma P/rho), T/mu = P/rho where the
    law defines a temperature, and the entropic function times rho^gamma is the pressure"""
    d = 1
    g = proxy(u, d); o = eos(u, e, d)
    rho, gm = g["rho"], o["gamma"]
    pr = pw(rho, gm)
    u.requires(eq(pw(rho, gm - 1) * rho, pr), eq(pw(rho, 1 - gm) * pr, rho))
    u.trust("pow(x,a)*pow(x,b) = pow(x,a+b) and pow(x,1) = x (used for exponents gamma, gamma-1, 1-gamma)")
    s = spec(o, e, g)
    if e != "Adiabatic":
        # the stored u is the one the law assigns
        u.requires(eq(g["u"], s["u"]))
    u.lemma("P = (gamma-1) rho u", eq(s["P"], (gm - 1) * rho * g["u"]))
    u.lemma("sound speed", eq(s["c2"] * rho, s["P"] * (gm if e == "Adiabatic" else 1)))
    u.lemma("entropic function", eq((gm - 1) * g["u"] * pw(rho, 1 - gm) * pr, (gm - 1) * rho * g["u"]))
    if e in ("Isothermal", "Barotropic", "Barotropic2"):
        u.lemma("ideal gas temperature", eq(s["T"] * rho, s["P"] * o["mu_bar"]))


FIELDS = {"Adiabatic": {"gamma": "gamma_eos", "mu_bar": "mu_bar"},
          "Isothermal": {"gamma": "gamma_eos", "mu_bar": "mu_bar", "temp0": ("temp0", "T")},
          "Polytropic": {"gamma": "eta_eos", "eta": "eta_eos", "Kpoly": "Kpoly"},
          "Barotropic": {"gamma": "gamma_eos", "mu_bar": "mu_bar", "temp0": ("temp0", "T"), "rho_bary": ("rho_bary", "rho")},
          "Barotropic2": {"gamma": "gamma_eos", "mu_bar": "mu_bar", "temp0": ("temp0", "T"), "rho_bary": ("rho_bary", "rho")},
          "LocallyIsothermal": {"gamma": "gamma_eos", "mu_bar": "mu_bar", "temp0": ("temp0", "T"), "templaw": "templaw", "tempmin": ("tempmin", "T")}}


@P.unit("construction", [(e, d) for e in FIELDS for d in (1, 2, 3)])
def construct(u, e, d):
    """the constructor stores the named parameters in code units (and gamma-1, 1/rho_bary) as the other contracts assume"""
    p = Params(u); un_ = u.obj("units", "SimUnits")
    o = u.obj("eos", "%s<%d>" % (e, d))
    To, ro, rc = un_["temp.outscale"], un_["rho.outscale"], un_["rho.outcgs"]
    u.requires(gt(To, 0), gt(ro, 0), gt(rc, 0))
    for r in u.call("%s<%d>::%s" % (e, d, e), o, p.obj, un_):
        for f, src in FIELDS[e].items():
            val = p.f(src) if isinstance(src, str) else p.f(src[0]) * (inv(To) if src[1] == "T" else inv(ro) * inv(rc))
            u.ensure(r, f, eq(o.at(r.st, f), val))
        u.ensure(r, "gammam1", eq(o.at(r.st, "gammam1"), o.at(r.st, "gamma") - 1))
        if e.startswith("Baro"):
            u.ensure(r, "invrho_bary", eq(o.at(r.st, "invrho_bary"), inv(o.at(r.st, "rho_bary"))))


@P.unit("locally_isothermal", [(d,) for d in (1, 2, 3)])
def locally(u, d):
    """temperature falls off as a power of the distance to the closest star, not below the floor; u = T/(gamma-1)/mu"""
    g = proxy(u, d); o = eos(u, "LocallyIsothermal", d)
    N = u.int("N", lo=0, hint=(0, 3))
    a = u.array("star", "StarParticle<%d>" % d, N)
    nb = u.obj("nbody", "Nbody<%d>" % d)
    nb.set("stardata", a.ptr(0)); nb.set("Nstar", N); o.set("nbody", nb.ptr())
    d2 = lambda j: dot(*(2 * [[g["r[%d]" % k] - a[j].at(u.st, "r[%d]" % k) for k in range(d)]]))
    big = lit(1e30)
    mn = GMin(u, "d2min", d2, start=S(big))

    def inv_(c, mode):
        x = S(c.accumulators()[0])
        return [("running minimum", eq(x, mn(S(c.K)))), ("nonnegative", ge(x, 0))]
    u.loops(inv_)
    D = sqrt(mn(N))
    Tloc = maxr(o["temp0"] * pw(D, -o["templaw"]), o["tempmin"])
    cls = "LocallyIsothermal<%d>" % d
    for r in u.call(cls + "::Temperature", o, g):
        u.ensure(r, "temperature", eq(r.ret, Tloc))
    u.loops(inv_)
    for r in u.call(cls + "::SpecificInternalEnergy", o, g):
        u.ensure(r, "internal energy", eq(r.ret, Tloc * inv((o["gamma"] - 1) * o["mu_bar"])))


@P.unit("disc_isothermal", [(d,) for d in (1, 2, 3)])
def disc(u, d):
    """sound speed is a power of the distance to the central star; u and T follow from it"""
    g = proxy(u, d); o = eos(u, "DiscLocallyIsothermal", d)
    s = u.obj("star", "StarParticle<%d>" % d)
    nb = u.obj("nbody", "Nbody<%d>" % d)
    nb.set("stardata", s.ptr()); o.set("nbody", nb.ptr())
    u.requires(gt(o["rin"], 0), gt(o["norm"], 0))
    cls = "DiscLocallyIsothermal<%d>" % d
    u.vtable(o, cls)
    dr = [g["r[%d]" % k] - s["r[%d]" % k] for k in range(d)]
    cs = o["norm"] * pw(sqrt(dot(dr, dr)) * inv(o["rin"]), -o["slope"])
    for r in u.call(cls + "::SoundSpeed", o, g):
        u.ensure(r, "sound speed", eq(r.ret, cs))
    for r in u.call(cls + "::SpecificInternalEnergy", o, g):
        u.ensure(r, "internal energy", eq(r.ret * (o["gamma"] - 1), cs * cs))
    for r in u.call(cls + "::Temperature", o, g):
        u.ensure(r, "temperature", eq(r.ret, o["mu_bar"] * cs * cs))


@P.unit("ionising", [(w, e, d) for w in ("IonisingRadiation", "MCRadiationEOS") for e in ("Adiabatic", "Isothermal", "Barotropic") for d in (1, 2, 3)])
def ionising(u, w, e, d):
    """the radiation gas laws: neutral gas follows the wrapped law; ionised gas is at least as hot (Ionising) or the mixture weighted by the
    ionisation fraction (Monte Carlo)"""
    g = proxy(u, d); inner = eos(u, e, d, name="inner"); o = eos(u, w, d)
    u.vtable(inner, "%s<%d>" % (e, d))
    o.set("eos", inner.ptr())
    s = spec(inner, e, g); cls = "%s<%d>" % (w, d)
    c = sqrt(s["c2"])
    A = (inner["gamma"] - 1) * g["u"] * pw(g["rho"], 1 - inner["gamma"])
    u.hint("gas.ionstate", (0, 2))
    for r in u.call(cls + "::EntropicFunction", o, g):
        u.ensure(r, "entropic function", eq(r.ret, A))
    if w == "IonisingRadiation":
        res = {"Temperature": s["T"], "SpecificInternalEnergy": ite(and_(ne(g["ionstate"], 0), gt(g["u"], s["u"])), g["u"], s["u"]), "SoundSpeed": c}
    else:
        x = g["ionfrac"]; Ti, mi = o["temp_ion"], o["mu_ion"]
        u.requires(gt(Ti, 0), gt(mi, 0))
        res = {"Temperature": x * Ti + (1 - x) * s["T"], "SpecificInternalEnergy": x * Ti * inv((o["gamma"] - 1) * mi) + (1 - x) * s["u"], "SoundSpeed": x * sqrt(Ti * inv(mi)) + (1 - x) * c}
    for f, v in res.items():
        for r in u.call(cls + "::" + f, o, g):
            u.ensure(r, f, eq(r.ret, v))
            u.frame(r, g, [])
