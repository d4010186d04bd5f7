"""shared contract vocabulary"""
import ctypes, re
import z3
from gvc.spec import *
from gvc import terms as T
from gvc.terms import un

from gvc.ir import rationalise


def lit(x):
    """a decimal constant of the source, read the way the engine reads it"""
    return rationalise(float(x))


DEAD, ACTIVE, POTMIN, ENDSTEP = 1, 2, None, None


def hasbit(fl, b):
    fl = un(fl)
    if T.isz(fl):
        n = b.bit_length() - 1
        if not isinstance(fl, z3.BitVecRef):
            fl = z3.Int2BV(fl, 32)
        return z3.Extract(n, n, fl) == z3.BitVecVal(1, 1)
    return bool(int(fl) & b)


def setbit(fl, b):
    fl = un(fl)
    return S(fl | z3.BitVecVal(b, 32)) if T.isz(fl) else S(int(fl) | b)


def clrbit(fl, b):
    fl = un(fl)
    return S(fl & z3.BitVecVal(~b & 0xffffffff, 32)) if T.isz(fl) else S(int(fl) & ~b)


F0 = S(0)


class GSum:
    """ghost sum: s(p.., n) = sum of term(p.., j) for 0 <= j < n. Axioms: s(p, n<=0) = 0 and s(p, n+c) = s(p, n+c-1) + term(p, n+c-1)
    for n+c >= 1 (instantiated where the argument is syntactically an increment)"""
    N = [0]

    PREFIX = "sum_"
    start = F0
    op = staticmethod(lambda a, b: a + b)

    def __init__(s, u, name, term, params=0, start=None):
        GSum.N[0] += 1
        s.u = u; s.term = term; s.np = params
        if start is not None:
            s.start = start
        s.name = "%s%s_%d" % (s.PREFIX, name, GSum.N[0])

        def ax(args, r):
            n = args[-1]
            out = [z3.Implies(n <= 0, r == T.R(un(s.start)))]
            inc = z3.is_add(n) and any(z3.is_int_value(c) and c.as_long() >= 1 for c in n.children())
            if inc or z3.is_int_value(n) and n.as_long() >= 1:
                m = z3.simplify(n - 1)
                ps = list(args[:-1])
                prev = T.R(T.uf(s.name, *(ps + [m])))
                u.ex.inspec += 1
                t = un(s.term(*[S(p) for p in ps], S(m)))
                u.ex.inspec -= 1
                out.append(z3.Implies(n >= 1, r == T.R(un(s.op(S(prev), S(T.R(t)))))))
            return out
        T.UF_AX[s.name] = ax

    def __call__(s, *a):
        if s.u.concrete:
            n = int(s.u.num(a[-1]))
            r = s.start
            for j in range(n):
                r = s.op(r, s.term(*a[:-1], S(j)))
            return S(r) if n == 0 else r
        return S(T.uf(s.name, *[un(x) for x in a]))


class GMin(GSum):
    """ghost minimum of term(p.., j) for 0 <= j < n, at most `start`"""
    PREFIX = "min_"
    op = staticmethod(lambda a, b: minr(a, b))


class GMax(GSum):
    PREFIX = "max_"
    op = staticmethod(lambda a, b: maxr(a, b))


def elementwise(u, arr, spec, cond=None, lo=0):
    """loop invariant 'elements below the loop counter are done, the others untouched' for each field -> fn(old, j)"""
    def inv(c, mode):
        r = []
        for f in spec:
            def fa(j, f=f):
                j = S(j)
                old = lambda nm: arr[j].at(c.entry, nm)
                new = arr[j].at(c.cur, f)
                done = and_(ge(j, lo), lt(j, S(c.K) + lo))
                return T.and_(implies(done, eq(new, spec[f](old, j))), implies(not_(done), eq(new, old(f))))
            r.append((f, ("forall", arr.leaf(f), fa)))
        return r
    return inv


def elementwise_post(u, o, arr, spec, N, lo=0, pre=None):
    """the matching postcondition, plus the frame: no other field of the element changes"""
    pre = pre or u.st

    def post(j):
        rng = and_(ge(j, lo), lt(j, N))
        old = lambda nm: arr[j].at(pre, nm)
        for f in spec:
            u.ensure(o, f, implies(rng, eq(arr[j].at(o.st, f), spec[f](old, j))))
        u.frame(o, arr[j], list(spec), "no other field changes", rng, pre)
    u.each(o, N, post)


M4NORM = {1: 2.0 / 3.0, 2: 10.0 / (7.0 * 3.141592653589793), 3: 1.0 / 3.141592653589793}


def kernel(u, d, fns, owner=None, member="kern"):
    """M4 kernel member functions by contract (C01 decides what they are): symbolic mode replaces them by uninterpreted functions,
    replays call the compiled functions. owner: object that holds the kernel as a member"""
    cls = "M4Kernel<%d>" % d
    r = {}
    if u.concrete:
        vals = dict(kernrange=2.0, invkernrange=0.5, kernrangesqd=4.0, kernnorm=M4NORM[d])
        buf = ctypes.create_string_buffer(u.lay.sizeof(cls) + 16)
        u._kernbuf = buf
        for nm, v in vals.items():
            o, _ = u.lay.field(cls, nm)
            ctypes.c_double.from_address(ctypes.addressof(buf) + o).value = v
        if owner is not None:
            k = owner.sub(member, cls)
            for nm, v in vals.items():
                k.set(nm, F(v))
    for f in fns:
        nm = "kern_" + f
        if u.concrete:
            cf = getattr(u.dll, u.proj.lookup("%s::%s" % (cls, f)))
            cf.restype = ctypes.c_double
            cf.argtypes = [ctypes.c_void_p, ctypes.c_double]
            T.UF_INTERP[nm] = lambda x, cf=cf: cf(ctypes.addressof(u._kernbuf), x)
        else:
            u.stub(r"^%s::%s\(double" % (re.escape(cls), f), lambda ex, st, a, i, nm=nm: [(st, T.uf(nm, T.R(a[1])))])
        r[f] = lambda x, nm=nm: uf(nm, x)
    return r


class Params:
    """the Parameters object: every named parameter is one unknown value, shared by all accesses under that name"""
    def __init__(s, u, name="simparams"):
        import re
        if u.concrete:
            raise Reject("string-keyed parameter map")
        s.u = u; s.cells = {}; names = {}
        s.obj = u.obj(name, "Parameters")

        def literal(ex, p):
            for m in ex.mods:
                t = m.gtext.get(p.r.name)
                if t is not None:
                    return re.search(r'c"([^"]*)"', t).group(1).replace("\\00", "")
            raise KeyError(p.r.name)

        def ctor(ex, st, a, i):
            names[(a[0].r.id, str(a[0].b))] = literal(ex, a[1])
            return [(st, None)]

        def index(kind):
            def h(ex, st, a, i):
                return [(st, s.cell(kind, names[(a[1].r.id, str(a[1].b))]).ptr())]
            return h
        u.stub(r"^std::__cxx11::basic_string<.*>::basic_string(<.*>)?\(char const\*", ctor)
        u.stub(r"^std::__cxx11::basic_string<.*>::~basic_string\(", lambda ex, st, a, i: [(st, None)])
        for kind in ("double", "int"):
            u.stub(r"^std::map<std::__cxx11::basic_string<.*, %s, .*operator\[\]\(" % kind, index(kind))
        u.trust("the parameter map is a total function from names to values (std::map, std::string)")

    def cell(s, kind, name):
        if (kind, name) not in s.cells:
            s.cells[(kind, name)] = s.u.obj("par." + name, kind)
        return s.cells[(kind, name)]

    def f(s, name):
        return s.cell("double", name).at(s.u.st)

    def i(s, name):
        return s.cell("int", name).at(s.u.st)
