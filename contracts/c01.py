"""C01 smoothing kernels: every value is derived here, exactly, from the definition of W(s) alone (the oracle)."""
from fractions import Fraction as F
from gvc.runner import Property
from gvc.spec import *
from gvc import terms as T
from gvc.terms import un

SRC = ["Hydrodynamics/M4Kernel.cpp", "Hydrodynamics/QuinticKernel.cpp", "Hydrodynamics/GaussianKernel.cpp", "Hydrodynamics/TabulatedKernel.cpp"]
P = Property("C01", SRC, ["SmoothingKernel.h"],
             ["%sKernel<%d>" % (k, d) for k in ("M4", "Quintic", "Gaussian", "Tabulated") for d in (1, 2, 3)])
PI_LO, PI_HI = F(314159265358979, 10**14), F(31415926535898, 10**13)


# ---- exact piecewise polynomials (coefficient lists; exponent may be negative: dict exp->coef)
def pol(*c):
    return {i: F(x) for i, x in enumerate(c)}


def padd(a, b, k=1):
    r = dict(a)
    for e, c in b.items():
        r[e] = r.get(e, 0) + k * c
    return r


def pmul(a, b):
    r = {}
    for e, c in a.items():
        for f, d in b.items():
            r[e + f] = r.get(e + f, 0) + c * d
    return r


def pdiff(a):
    return {e - 1: c * e for e, c in a.items() if e}


def pint(a):
    assert -1 not in a or a[-1] == 0
    return {e + 1: c / (e + 1) for e, c in a.items() if c}


def pval(a, x):
    return sum((c * F(x) ** e for e, c in a.items()), F(0))


def ppow(a, n):
    r = {0: F(1)}
    for _ in range(n):
        r = pmul(r, a)
    return r


def lin(c):
    return {0: F(c), 1: F(-1)}


# definitions (Monaghan & Lattanzio 1985; Morris 1996), un-normalised, on [0,1),[1,2),...
M4 = [padd(ppow(lin(2), 3), ppow(lin(1), 3), -4), ppow(lin(2), 3)]
M4 = [{e: c / 4 for e, c in p.items()} for p in M4]
Q5 = [padd(padd(ppow(lin(3), 5), ppow(lin(2), 5), -6), ppow(lin(1), 5), 15), padd(ppow(lin(3), 5), ppow(lin(2), 5), -6), ppow(lin(3), 5)]
DEFS = {"M4": M4, "Quintic": Q5}


def integral(W, n):
    """int_0^R W s^n ds"""
    t = F(0)
    for k, p in enumerate(W):
        q = pint(pmul(p, {n: F(1)}))
        t += pval(q, k + 1) - (pval(q, k) if k else F(0))
    return t


def derived(W):
    """exact kernel family derived from W: derivative, d W/dh form per dimension, and the 3D softened-gravity kernels"""
    N3 = 4 * integral(W, 2)          # 4*int W s^2 ds ; mass = norm*pi*N3
    g = []
    cum = F(0)
    for k, p in enumerate(W):
        q = pint(pmul(p, {2: F(1)}))
        c0 = cum - (pval(q, k) if k else F(0))
        q = padd(q, {0: c0})
        cum = pval(q, k + 1)
        g.append({e - 2: 4 * c / N3 for e, c in q.items()})
    # potential: wpot' = -wgrav, wpot(R) = 1/R
    R = len(W)
    pot = [None] * R
    nxt = F(1, R)
    for k in range(R - 1, -1, -1):
        q = {e: -c for e, c in pint(g[k]).items()}
        q = padd(q, {0: nxt - pval(q, k + 1)})
        pot[k] = q
        nxt = pval(q, k) if k else q.get(0, F(0))
    zeta = [padd(a, pmul(b, {1: F(1)}), -1) for a, b in zip(pot, g)]
    return g, pot, zeta


def term(p, s):
    r = S(F(0))
    inv = None
    for e, c in sorted(p.items()):
        if c == 0:
            continue
        if e >= 0:
            t = S(F(c))
            for _ in range(e):
                t = t * s
        else:
            t = S(F(c))
            for _ in range(-e):
                t = t / s
        r = r + t
    return r


def piece_obl(u, o, name, W, ref, s, val, outside, tol=None):
    R = len(W)
    for k in range(R):
        cond = and_(ge(s, k), lt(s, k + 1))
        d = val - term(ref[k], s)
        u.ensure(o, "%s[%d<=s<%d]" % (name, k, k + 1), implies(cond, eq(d, 0) if tol is None else le(absr(d), tol)))
    u.ensure(o, "%s[s>=%d]" % (name, R), implies(ge(s, R), eq(val, outside)))


def kernel_obj(u, K, d):
    k = u.obj("kern", "%sKernel<%d>" % (K, d))
    return k


CASES = [(k, d) for k in ("M4", "Quintic") for d in (1, 2, 3)]


@P.unit("definition_w0", CASES)
def w0(u, K, d):
    k = kernel_obj(u, K, d)
    s = u.real("s", lo=0, hint=(0, 4))
    n = u.real("norm", pos=True)
    k.set("kernnorm", n)
    W = DEFS[K]
    for o in u.call("%sKernel<%d>::w0" % (K, d), k, s):
        piece_obl(u, o, "w0", W, [{e: c for e, c in p.items()} for p in W], s, o.ret / n, 0)


@P.unit("derivative_w1", CASES)
def w1(u, K, d):
    k = kernel_obj(u, K, d)
    s = u.real("s", lo=0, hint=(0, 4))
    n = u.real("norm", pos=True)
    k.set("kernnorm", n)
    W = DEFS[K]
    for o in u.call("%sKernel<%d>::w1" % (K, d), k, s):
        piece_obl(u, o, "w1", W, [pdiff(p) for p in W], s, o.ret / n, 0)
        u.ensure(o, "w1 <= 0", le(o.ret, 0))


@P.unit("smoothing_derivative_womega", CASES)
def womega(u, K, d):
    k = kernel_obj(u, K, d)
    s = u.real("s", lo=0, hint=(0, 4))
    n = u.real("norm", pos=True)
    k.set("kernnorm", n)
    W = DEFS[K]
    ref = [{e: -(d + e) * c for e, c in p.items()} for p in W]
    for o in u.call("%sKernel<%d>::womega" % (K, d), k, s):
        piece_obl(u, o, "womega", W, ref, s, o.ret / n, 0)


@P.unit("softened_gravity", [(k, d, f) for k, d in CASES for f in ("wgrav", "wpot", "wzeta")])
def grav(u, K, d, f):
    k = kernel_obj(u, K, d)
    s = u.real("s", pos=True, hint=(0, 4))
    W = DEFS[K]
    g, pot, zeta = derived(W)
    ref, out = {"wgrav": (g, 1 / (s * s)), "wpot": (pot, 1 / s), "wzeta": (zeta, 0)}[f]
    for o in u.call("%sKernel<%d>::%s" % (K, d, f), k, s):
        piece_obl(u, o, f, W, ref, s, o.ret, out)


@P.unit("gaussian", [(d, f) for d in (1, 2, 3) for f in ("w0", "w1", "womega")])
def gauss(u, d, f):
    """truncated Gaussian: W = norm exp(-s^2) inside the kernel range, 0 beyond; W' = -2 s W; womega = -(d W + s W')"""
    k = kernel_obj(u, "Gaussian", d)
    s = u.real("s", lo=0, hint=(0, 4))
    n = u.real("norm", pos=True)
    R = u.real("R", pos=True)
    k.set("kernnorm", n)
    k.set("kernrange", R)
    E = uf("exp", -(s * s))
    ref = {"w0": E, "w1": -2 * s * E, "womega": -(d * E + s * (-2 * s * E))}[f]
    for o in u.call("GaussianKernel<%d>::%s" % (d, f), k, s):
        u.ensure(o, f + " inside range", implies(lt(s, R), eq(o.ret, n * ref)))
        u.ensure(o, f + " beyond range", implies(ge(s, R), eq(o.ret, 0)))


@P.unit("gaussian_gravity_beyond_range", [(d, f) for d in (1, 2, 3) for f in ("wgrav", "wpot")])
def gaussgrav(u, d, f):
    k = kernel_obj(u, "Gaussian", d)
    s = u.real("s", pos=True, hint=(0, 6))
    R = u.real("R", pos=True)
    k.set("kernrange", R)
    ref = {"wgrav": 1 / (s * s), "wpot": 1 / s}[f]
    for o in u.call("GaussianKernel<%d>::%s" % (d, f), k, s):
        u.ensure(o, f + " is Newtonian beyond the kernel range", implies(ge(s, R), eq(o.ret, ref)))


@P.unit("normalisation", [(k, d) for k in ("M4", "Quintic", "Gaussian") for d in (1, 2, 3)])
def normal(u, K, d):
    """constructor: integral of W over all space is 1; drag kernel q^2 W likewise; range, its inverse and its square agree"""
    k = kernel_obj(u, K, d)
    if u.concrete:
        from gvc.unit import Reject
        raise Reject("std::string argument")
    for o in u.call("%sKernel<%d>::%sKernel" % (K, d, K), k, u.opaque()):
        n, nd, R, iR, R2 = (o(k, f) for f in ("kernnorm", "kernnormdrag", "kernrange", "invkernrange", "kernrangesqd"))
        u.ensure(o, "invkernrange*kernrange = 1", eq(iR * R, 1))
        u.ensure(o, "kernrangesqd = kernrange^2", eq(R2, R * R))
        tol = F(1, 10**12)
        for pi in (PI_LO, PI_HI):
            ang = {1: F(2), 2: 2 * pi, 3: 4 * pi}[d]
            if K != "Gaussian":
                W = DEFS[K]
                u.ensure(o, "unit integral", le(absr(n * ang * integral(W, d - 1) - 1), tol))
                u.ensure(o, "unit drag integral", le(absr(nd * n * ang * integral(W, d + 1) - 1), tol))
            else:
                # integral of exp(-r^2) over R^d is pi^(d/2); of r^2 exp(-r^2) is (d/2) pi^(d/2)
                u.ensure(o, "unit integral", and_(n > 0, le(absr(n * n * pi ** d - 1), tol)))
                u.ensure(o, "unit drag integral", eq(nd * F(d, 2), 1))
        if K != "Gaussian":
            u.ensure(o, "kernrange is the support of W", eq(R, len(DEFS[K])))


# ------------------------------------------------------------------ tabulated kernels
TABS = {"w0": "tableW0", "w1": "tableW1", "womega": "tableWomega", "wzeta": "tableWzeta", "wgrav": "tableWgrav", "wpot": "tableWpot",
        "wdrag": "tableWdrag", "w0_s2": "tableW0_s2", "womega_s2": "tableWomega_s2", "wzeta_s2": "tableWzeta_s2", "wLOS": "tableLOS"}


def tab_obj(u, d, skip=()):
    k = u.obj("tab", "TabulatedKernel<%d>" % d)
    res = u.int("res", lo=1, hint=(1, 8))
    R = u.real("R", pos=True)
    k.set("res", res)
    k.set("kernrange", R)
    k.set("kernrangesqd", R * R)
    k.set("resinvkernrange", res / R)
    k.set("resinvkernrangesqd", res / (R * R))
    arrs = {}
    for f, t in TABS.items():
        a = u.array(t, "double", res)
        k.set(t, a.ptr())
        arrs[f] = a
    return k, res, R, arrs


@P.unit("table_lookup", [(d, f) for d in (1, 2, 3) for f in TABS])
def lookup(u, d, f):
    """value = entry floor(res*s/range) of the function's own table, never outside the table; outside the range 0 (or the Newtonian value)"""
    k, res, R, arrs = tab_obj(u, d)
    s = u.real("s", lo=0, hint=(0, 4))
    if f in ("wgrav", "wpot"):
        u.requires(s > 0)
    X = R * R if f.endswith("_s2") else R
    out = {"wgrav": 1 / (s * s), "wpot": 1 / s}.get(f, 0)
    for o in u.call("TabulatedKernel<%d>::%s" % (d, f), k, s):
        i = floor_(s * res / X)
        u.ensure(o, "table index valid", implies(lt(s, X), and_(ge(i, 0), lt(i, res))))
        u.ensure(o, "value inside the range", implies(lt(s, X), eq(o.ret, arrs[f].val(i))))
        u.ensure(o, "value beyond the range", implies(ge(s, X), eq(o.ret, out)))


def slot_of(u, d, K, f):
    """member-function-pointer representation of &SmoothingKernel::f: 1 + byte offset in the vtable (Itanium ABI)"""
    g = u.ex.global_ptr(u.find_vtable("%sKernel<%d>" % (K, d)))
    from gvc.sym import Ptr
    from gvc.ir import PTR
    import re
    for off in range(0, 30):
        p = u.ex.load(u.st, Ptr(g.r, 0, 16 + 8 * off), PTR)
        if re.search(r"::%s\(double" % f, u.ex.dem(p.name)):
            return 8 * off
    raise AssertionError


@P.unit("table_fill", [(d, v, f) for d in (1, 3) for v in ("initializeTable", "initializeTableSqd") for f in ("w0", "womega")])
def fill(u, d, v, f):
    """initializeTable(table, fn): for every i in [0,res) table[i] = fn(i*range/res) (Sqd: fn(sqrt(i*range^2/res)))"""
    if u.concrete:
        from gvc.unit import Reject
        raise Reject("member function pointer")
    k, res, R, arrs = tab_obj(u, d)
    kern = u.obj("kern", "M4Kernel<%d>" % d)
    u.vtable(kern, "M4Kernel<%d>" % d)
    kern.set("kernrange", R)
    kern.set("kernrangesqd", R * R)
    k.set("kernel", kern.ptr())
    t = u.array("table", "double", res)
    u.stub(r"M4Kernel<%d>::%s\(double" % (d, f), lambda ex, st, a, i: [(st, T.uf("kern_" + f, T.R(a[1])))])

    def arg(i):
        return i * R / res if v == "initializeTable" else sqrt(i * (R * R) / res)

    def inv(c, mode):
        return [("filled so far", ("forall", t.leaf(), lambda j: T.implies(T.and_(T.ge(j, 0), T.lt(j, c.K)), T.eq(u.at(t, j, c.cur), un(uf("kern_" + f, arg(S(j))))))))]
    u.loops(inv)
    from gvc.sym import NULL
    for o in u.call("TabulatedKernel<%d>::%s" % (d, v), k, t, 1 + slot_of(u, d, "M4", f), 0):
        u.ensure_forall(o, "every entry", lambda j: implies(and_(ge(j, 0), lt(j, res)), eq(t.val(j, o.st), uf("kern_" + f, arg(j)))))


def method_at(u, d, K, slot):
    g = u.ex.global_ptr(u.find_vtable("%sKernel<%d>" % (K, d)))
    from gvc.sym import Ptr
    from gvc.ir import PTR
    import re
    p = u.ex.load(u.st, Ptr(g.r, 0, 16 + slot - 1), PTR)
    return re.search(r"::(\w+)\(", u.ex.dem(p.name)).group(1)


@P.unit("table_construction", [(d,) for d in (1, 2, 3)], tier="quick")
def construct(u, d):
    """constructor (against the contracts of initializeTable*): every table holds its own function on its own grid, then every
    evaluation returns that function at the grid point just below its argument"""
    if u.concrete:
        from gvc.unit import Reject
        raise Reject("std::string argument")
    from gvc.sym import ArrCell
    from gvc.ir import DBL
    k = u.obj("tab", "TabulatedKernel<%d>" % d)
    res = u.int("res", lo=1)
    R = u.real("R", pos=True)
    iR = u.real("iR")
    n, nd = u.real("norm"), u.real("normdrag")
    kern = u.obj("kern", "M4Kernel<%d>" % d)
    u.vtable(kern, "M4Kernel<%d>" % d)
    for f, v in (("kernrange", R), ("kernrangesqd", R * R), ("invkernrange", iR), ("kernnorm", n), ("kernnormdrag", nd)):
        kern.set(f, v)
    u.stub(r"KernelFactory", lambda ex, st, a, i: [(st, kern.ptr())])
    u.stub(r"^M4Kernel<.>::~", lambda ex, st, a, i: [(st, None)])

    def fillstub(sq):
        def h(ex, st, a, i):
            f = method_at(u, d, "M4", a[2])
            r = a[1].r
            r.S = 8
            r._leaves = {0: DBL}
            r.count = un(res)
            arg = (lambda j: sqrt(S(j) * (R * R) / res)) if sq else (lambda j: S(j) * R / res)
            st.cells(r, True)[0] = ArrCell(lambda j: un(uf("kern_" + f, arg(j))), ())
            return [(st, None)]
        return h

    def losstub(ex, st, a, i):
        # contract of initializeTableLOS: fills tableLOS on the linear grid
        p = Obj_at(u, k, st, "tableLOS")
        r = p.r
        r.S = 8
        r._leaves = {0: DBL}
        r.count = un(res)
        st.cells(r, True)[0] = ArrCell(lambda j: un(uf("kern_los", S(j) * R / res)), ())
        return [(st, None)]
    u.stub(r"::initializeTable\(", fillstub(False))
    u.stub(r"::initializeTableSqd\(", fillstub(True))
    u.stub(r"::initializeTableLOS\(", losstub)
    s = u.real("s", pos=True)
    for o in u.call("re:^TabulatedKernel<%d>::TabulatedKernel\\(std" % d, k, u.opaque(), res):
        for f, v in (("kernrange", R), ("kernrangesqd", R * R), ("invkernrange", iR), ("kernnorm", n), ("kernnormdrag", nd), ("res", res)):
            u.ensure(o, f, eq(o(k, f), v))
        for f in TABS:
            X = R * R if f.endswith("_s2") else R
            fn = {"w0_s2": "w0", "womega_s2": "womega", "wzeta_s2": "wzeta", "wLOS": "los"}.get(f, f)
            for o2 in u.call("TabulatedKernel<%d>::%s" % (d, f), k, s, st=o.st):
                i = floor_(s * res / X)
                arg = sqrt(i * (R * R) / res) if f.endswith("_s2") else i * R / res
                u.ensure(o2, f, implies(lt(s, X), eq(o2.ret, uf("kern_" + fn, arg))))


def Obj_at(u, k, st, nm):
    return k.at(st, nm)


@P.unit("table_copy", [(d,) for d in (1, 2, 3)])
def copy(u, d):
    """copy constructor: the copy evaluates identically and shares no table with the original"""
    k, res, R, arrs = tab_obj(u, d)
    c = u.obj("copy", "TabulatedKernel<%d>" % d)

    def inv(c, mode):
        new, old = c.local("newtable"), c.local("table.addr")
        def fa(j):
            from gvc.sym import Ptr
            from gvc.ir import DBL
            return T.implies(T.and_(T.ge(j, 0), T.lt(j, c.K)), T.eq(u.ex.load(c.cur, Ptr(new.r, j, 0), DBL), u.ex.load(c.cur, Ptr(old.r, j, 0), DBL)))
        return [("copied so far", ("forall", lambda key: key.startswith("%d:0:" % new.r.id), fa))]
    u.loops(inv)
    from gvc.sym import Ptr
    from gvc.ir import DBL
    for o in u.call("re:^TabulatedKernel<%d>::TabulatedKernel\\(TabulatedKernel" % d, c, k):
        for f in ("kernrange", "kernrangesqd", "invkernrange", "kernnorm", "kernnormdrag", "res", "resinvkernrange", "resinvkernrangesqd"):
            u.ensure(o, f, eq(o(c, f), k[f]))
        seen = []
        for f, t in TABS.items():
            p = o(c, t)
            fresh = p.r is not arrs[f].region and p.r not in seen
            u.ensure(o, t + " is a fresh table", fresh if not u.concrete else True)
            seen.append(p.r)
            if not u.concrete:
                u.ensure_forall(o, t, lambda j: implies(and_(ge(j, 0), lt(j, res)), eq(u.ex.load(o.st, Ptr(p.r, un(j), 0), DBL), arrs[f].val(j))))


@P.unit("derived_evaluations", [(k, d) for k in ("M4", "Quintic", "Gaussian") for d in (1, 2, 3)])
def derived_eval(u, K, d):
    """squared-argument forms evaluate the plain function at the square root; drag kernel = norm_drag * q^2 * W(q)"""
    k = kernel_obj(u, K, d)
    u.vtable(k, "%sKernel<%d>" % (K, d))
    s = u.real("s", lo=0, hint=(0, 4))
    nd = u.real("nd")
    k.set("kernnormdrag", nd)
    for f in ("w0", "womega", "wzeta"):
        u.stub(r"^%sKernel<%d>::%s\(" % (K, d, f), lambda ex, st, a, i, f=f: [(st, T.uf("kern_" + f, T.R(a[1])))])
    if u.concrete:
        from gvc.unit import Reject
        raise Reject("stubbed")
    for f in ("w0", "womega", "wzeta"):
        for o in u.call("SmoothingKernel<%d>::%s_s2" % (d, f), k, s):
            u.ensure(o, f + "_s2", eq(o.ret, uf("kern_" + f, sqrt(s))))
    for o in u.call("SmoothingKernel<%d>::wdrag" % d, k, s):
        u.ensure(o, "wdrag", eq(o.ret, nd * s * s * uf("kern_w0", s)))
