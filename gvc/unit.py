"""Contract units. A unit is a python function written against this interface; it is executed
  - symbolically, producing proof obligations from the current IR of /repo, and
  - (only after an obligation failed) concretely: same set-up, same requires/ensures, but every u.call runs the compiled code."""
import ctypes, math, random, re, struct, time
from fractions import Fraction
import z3
from . import terms as T, numeric
from .terms import S, isz, un
from .ir import INT, DBL, PTR, FLT, VOID
from .sym import Executor, Region, Ptr, NULL, State, ArrCell, EngineError, Opaque, FuncPtr, PtrIte, simp_bool, as01
from .layout import tsize


class Reject(Exception):
    pass


PRIM = {"double": DBL, "int": INT(32), "long": INT(64), "ptr": PTR, "bool": INT(8), "char": INT(8), "float": FLT}


class Obj:
    """a C++ object (possibly an element of an array) named in a contract"""

    def __init__(s, u, region, idx=0, base=0, cls=None):
        s.u = u; s.region = region; s.idx = idx; s.base = base; s.cls = cls

    def ptr(s):
        return Ptr(s.region, un(s.idx), s.base)

    def _loc(s, nm):
        if s.cls in PRIM:
            return s.base, PRIM[s.cls]
        o, t = s.u.lay.field(s.cls, nm)
        return o + s.base, t

    def at(s, st, nm=None):
        o, t = s._loc(nm)
        v = s.u.ex.load(st, Ptr(s.region, un(s.idx), o), t)
        if t.k == "i" and t.n == 8 and not isinstance(v, (bool, z3.BoolRef)):
            # bool
            if isinstance(v, int):
                return bool(v)
            c = as01(v)
            return c if c is not None else v != 0
        if isinstance(v, (Ptr, PtrIte, FuncPtr, Opaque, bool, z3.BoolRef)):
            return v
        return S(v)

    def __getitem__(s, nm):
        return s.at(s.u.st, nm)

    def set(s, nm, v):
        o, t = s._loc(nm)
        v = un(v)
        if isinstance(v, Obj):
            v = v.ptr()
        if t.k in ("double", "float") and isinstance(v, int):
            v = Fraction(v)
        if t.k == "i" and t.n == 8:
            if isinstance(v, bool):
                v = int(v)
            elif isinstance(v, z3.BoolRef):
                v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        s.u.ex.store(s.u.st, Ptr(s.region, un(s.idx), o), v, t)

    def leaves(s):
        return s.u.lay.leaves(s.cls)

    def at_off(s, st, off):
        return s.u.ex.load(st, Ptr(s.region, un(s.idx), off + s.base), s.u.lay.leaves(s.cls)[off])

    def sub(s, member, cls):
        """member object of class type"""
        o = s.u.lay.member_offset(s.cls, member)
        return Obj(s.u, s.region, s.idx, s.base + o, cls)

    def vec(s, nm, n, st=None):
        return [s.at(st or s.u.st, "%s[%d]" % (nm, k)) for k in range(n)]


class Arr:
    def __init__(s, u, region, cls, n):
        s.u = u; s.region = region; s.cls = cls; s.n = n

    def ptr(s, i=0):
        return Ptr(s.region, un(i), 0)

    def __getitem__(s, i):
        return Obj(s.u, s.region, i, 0, s.cls)

    def val(s, i, st=None):
        return Obj(s.u, s.region, i, 0, s.cls).at(st or s.u.st)

    def end(s):
        return Ptr(s.region, un(s.n), 0)

    def leaf(s, nm=None):
        """predicate recognising reads of this leaf (for quantified facts)"""
        o = 0 if s.cls in PRIM else s.u.lay.field(s.cls, nm)[0]
        pre = "%d:%d:" % (s.region.id, o)
        return lambda key: key.startswith(pre)

    def anyleaf(s):
        pre = "%d:" % s.region.id
        return lambda key: key.startswith(pre)


class Out:
    def __init__(s, u, st, ret, args):
        s.u = u; s.st = st; s.ret = S(ret) if not isinstance(ret, (bool, z3.BoolRef, Ptr, PtrIte, Opaque, type(None), tuple)) else ret
        s.args = args

    def __call__(s, o, nm=None):
        return o.at(s.st, nm)

    def vec(s, o, nm, n):
        return [o.at(s.st, "%s[%d]" % (nm, k)) for k in range(n)]


class Obligation:
    def __init__(s, name, pc, goal, inst, st=None):
        s.name = name; s.pc = pc; s.goal = goal; s.inst = inst; s.res = None; s.st = st


class U:
    """symbolic mode"""
    concrete = False

    def __init__(s, proj, name, bound=None):
        s.proj = proj
        s.lay = proj.layouts
        s.name = name
        s.ex = Executor(proj.mods, proj.layouts)
        s.ex.demangled = proj.dem
        s.ex.cur_mod = proj.mods[0]
        s.st = State()
        s.obls = []
        s.reqs = []
        s.covers = 0
        s.regions = []
        s.functions = []
        s.assumptions = []
        s.bound = bound
        s.ex.unroll_bound = bound
        s.hints = []
        s.notes = []
        s.npaths = 0

    # ---- inputs
    def real(s, name, lo=None, hi=None, pos=False, hint=None):
        c = z3.Real(name)
        if pos:
            s.requires(c > 0)
        if lo is not None:
            s.requires(T.ge(c, un(lo)))
        if hi is not None:
            s.requires(T.le(c, un(hi)))
        if hint:
            s.hint("^" + re.escape(name) + "$", hint)
        return S(c)

    def int(s, name, lo=None, hi=None, hint=None):
        c = z3.Int(name)
        if lo is not None:
            s.requires(T.ge(c, un(lo)))
        if hi is not None:
            s.requires(T.le(c, un(hi)))
        if hint:
            s.hint("^" + re.escape(name) + "$", hint)
        return S(c)

    def bool(s, name):
        return z3.Bool(name)

    def bv(s, name, w=32):
        return z3.BitVec(name, w)

    def reals(s, name, n, **k):
        return [s.real("%s%d" % (name, i), **k) for i in range(n)]

    def obj(s, name, cls, **fields):
        r = Region(name, cls=cls if cls not in PRIM else None, kind="input")
        if cls in PRIM:
            r._leaves = {0: PRIM[cls]}
            r.bytes = tsize(PRIM[cls])
        else:
            r._leaves = s.lay.leaves(cls)
            r.bytes = s.lay.sizeof(cls)
        s.regions.append(r)
        o = Obj(s, r, 0, 0, cls)
        for k, v in fields.items():
            o.set(k, v)
        return o

    def fixed_array(s, name, cls, n):
        """small array of known length, kept as one object: double x[3]"""
        r = Region(name, kind="input")
        t = PRIM[cls]
        z = tsize(t)
        r._leaves = {i * z: t for i in range(n)}
        r.bytes = n * z
        s.regions.append(r)
        return [Obj(s, r, 0, i * z, cls) for i in range(n)]

    def array(s, name, cls, n):
        n_ = un(n)
        if cls in PRIM:
            r = Region(name, S=tsize(PRIM[cls]), kind="input", count=n_)
            r._leaves = {0: PRIM[cls]}
        else:
            r = Region(name, S=s.lay.sizeof(cls), cls=cls, kind="input", count=n_)
            r._leaves = s.lay.leaves(cls)
        s.regions.append(r)
        return Arr(s, r, cls, n)

    def ptr_array(s, name, n, fn, inv=None):
        """array of pointers whose element i is fn(i) (a Ptr)"""
        a = s.array(name, "ptr", n)
        a.region.ainit[0] = lambda i: fn(S(i))
        return a

    def vector(s, obj, member, arr, n=None):
        """make the std::vector member of obj hold arr[0..n)"""
        obj.set(member + "._M_start", arr.ptr(0))
        obj.set(member + "._M_finish", arr.ptr(n if n is not None else arr.n))
        obj.set(member + "._M_end_of_storage", arr.ptr(n if n is not None else arr.n))

    def vtable(s, obj, cls, field="$vptr"):
        """dynamic type of the object"""
        nm = s.find_vtable(cls)
        g = s.ex.global_ptr(nm)
        obj.set(field, Ptr(g.r, 0, 16))
        g.r.bytes = None

    def find_vtable(s, cls):
        want = "vtable for " + cls
        for m in s.proj.mods:
            names = [g for g in m.gtext if g.startswith("_ZTV")]
            for g in names:
                if demangle(g) == want:
                    return g
        raise EngineError("no vtable for " + cls)

    def opaque(s, what="arg"):
        return Opaque(what)

    def at(s, arr, j, st, nm=None):
        v = Obj(s, arr.region, j, 0, arr.cls).at(st, nm)
        return un(v)

    # ---- specification
    def requires(s, *fs):
        for f in fs:
            f = un(f)
            if isinstance(f, (list, tuple)):
                s.requires(*f)
                continue
            s.reqs.append(f)
            s.st.assume(f)

    def requires_forall(s, leafpred, fn, n=None):
        """for every array index i: fn(i) holds (list of formulas allowed)"""
        tag = T.uid()

        def g(i):
            f = fn(S(i))   # a specification read: no bounds obligation
            return [T.B(un(x)) for x in f] if isinstance(f, (list, tuple)) else T.B(un(f))
        s.st.facts = s.st.facts + ((leafpred, g, tag),)
        s.reqs.append(("forall", fn, n))

    def hint(s, rx, sampler):
        s.hints.append((re.compile(rx), sampler))

    def stub(s, rx, handler):
        s.ex.stubs.append((re.compile(rx), handler))

    def trust(s, text):
        if text not in s.assumptions:
            s.assumptions.append(text)

    def options(s, **k):
        for a, v in k.items():
            setattr(s.ex, a, v)

    def loops(s, *invs):
        s.ex.loop_invs = list(invs)

    def loop_mode(s, rx, mode, ordinal=None):
        s.ex.loop_modes.append((re.compile(rx), ordinal, mode))

    def call(s, fn, *args, st=None, allow_abort=False, assert_ok=False):
        name = s.proj.lookup(fn)
        f = s.ex.find(name)
        s.functions.append(s.proj.dem[name].split("(")[0] if False else s.proj.dem[name])
        start = st if st is not None else s.st
        st0 = start.fork()
        a = []
        for x in args:
            x = un(x)
            if isinstance(x, (Obj, Arr)):
                x = x.ptr()
            a.append(x)
        if len(a) != len(f.params):
            raise EngineError("contract of %s: %d arguments expected, %d given" % (s.proj.dem[name], len(f.params), len(a)))
        for j, (t, *_r) in enumerate(f.params):
            if t.k in ("double", "float") and isinstance(a[j], int) and not isinstance(a[j], bool):
                a[j] = Fraction(a[j])
        s.ex.side = []
        n0 = len(s.ex.obls)
        s.ex.cur_mod = f.mod
        s.ex.loop_seen = dict(s.ex.loop_seen) if False else s.ex.loop_seen
        outs = s.ex.exec_func(st0, f, a)
        short = s.ex.short(name)
        for (kind, sst, where) in s.ex.side:
            if kind == "unreachable":
                continue
            if kind == "assert" and (assert_ok or s.ex.assert_mode != 'check'):
                continue
            if kind == "abort" and allow_abort:
                continue
            s._add("%s:no-%s@%s" % (short, kind, s.ex.short(where)), sst, False)
        for (nm, ost, fm, where) in s.ex.obls[n0:]:
            s._add("%s:%s" % (short, nm) if ":" not in nm else nm, ost, fm)
        del s.ex.obls[n0:]
        res = [Out(s, o, v, a) for o, v in outs]
        s.npaths += len(res)
        if not res and not allow_abort:
            raise EngineError("no path through %s" % fn)
        return res

    def _add(s, name, st, f):
        f = un(f)
        s.obls.append(Obligation(name, list(st.pc), f, s.ex.fact_inst(st), st))

    def ensure(s, out, label, f):
        f = un(f)
        if isinstance(f, (list, tuple)):
            for i, x in enumerate(f):
                s.ensure(out, "%s[%d]" % (label, i), x)
            return
        s._add(label, out.st if out is not None else s.st, f)

    def frame(s, out, obj, changed, label="everything else unchanged", when=True, pre=None):
        """every field of obj outside `changed` (names, or prefixes of arrays such as "r[") has the value it had before"""
        pre = pre or s.st
        skip = set()
        for nm in changed:
            if nm.endswith("["):
                k = 0
                while True:
                    try:
                        skip.add(s.lay.field(obj.cls, nm + "%d]" % k)[0])
                    except EngineError:
                        break
                    except KeyError:
                        break
                    k += 1
            else:
                skip.add(s.lay.field(obj.cls, nm)[0])
        fs = []
        for off, lt_ in obj.leaves().items():
            if off in skip or s.concrete and getattr(lt_, "k", None) == "ptr":
                continue
            x, y = obj.at_off(pre, off), obj.at_off(out.st, off)
            if x is y:
                continue
            try:
                e = T.eq(un(x), un(y))
            except Exception:
                e = repr(x) == repr(y)
            if e is True:
                continue
            if s.concrete:
                s.ensure(out, "%s (offset %d of %s)" % (label, off, obj.cls), T.implies(un(when), e))
                continue
            fs.append(e)
        s.ensure(out, label, T.implies(un(when), T.and_(*fs)))

    def ensure_forall(s, out, label, fn):
        k = z3.Int("sk!%s" % re.sub(r"\W", "_", label)) if False else T.fresh("sk", "int")
        s.ensure(out, label, fn(S(k)))

    def each(s, out, N, fn):
        """fn(j) states postconditions for an arbitrary index 0 <= j < N"""
        fn(S(T.fresh("sk", "int")))

    def lemma(s, label, f, assuming=()):
        """a formula over contract symbols only"""
        st = s.st.fork()
        for a in assuming:
            st.assume(un(a))
        s._add("lemma:" + label, st, un(f))


def demangle(n, _c={}):
    if n not in _c:
        import subprocess
        _c[n] = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt", n], capture_output=True, text=True).stdout.strip()
    return _c[n]


# ================================================================== concrete mode
class Sampler:
    """chooses input values: from a solver model (by symbol name) or at random (VERIF_SEED)"""

    def __init__(s, rnd, hints, model=None, arrmodel=None, jitter=0.0, maxn=4):
        s.rnd = rnd; s.hints = hints; s.model = model or {}; s.arr = arrmodel or {}
        s.maxn = maxn
        s.scale = rnd.choice([1.0, 1.0, 1.0, 10.0, 0.1])
        s.jitter = jitter

    def hint(s, n):
        for rx, h in s.hints:
            if rx.search(n):
                return h
        return None

    def real(s, n):
        if n in s.model:
            return s.model[n]
        h = s.hint(n)
        r = s.rnd
        if h is not None:
            if callable(h):
                return float(h(r))
            if isinstance(h, tuple):
                return r.uniform(float(h[0]), float(h[1]))
            return float(r.choice(h))
        q = r.random()
        if q < 0.6:
            return r.uniform(-2, 2) * s.scale
        if q < 0.8:
            return float(r.randint(-3, 3))
        if q < 0.9:
            return r.uniform(0, 1)
        return r.uniform(-100, 100)

    def int(s, n):
        if n in s.model:
            return s.model[n]
        h = s.hint(n)
        r = s.rnd
        if h is not None:
            if callable(h):
                return int(h(r))
            if isinstance(h, tuple):
                return r.randint(int(h[0]), int(h[1]))
            return int(r.choice(h))
        return r.randint(-2, 6)

    def bool(s, n):
        if n in s.model:
            return bool(s.model[n])
        h = s.hint(n)
        if h is not None:
            return bool(h(s.rnd)) if callable(h) else bool(s.rnd.choice(h))
        return s.rnd.random() < 0.5


class LazyEnv(numeric.Env):
    def __init__(s, smp):
        super().__init__()
        s.smp = smp


class CU(U):
    """concrete mode: same interface, real code"""
    concrete = True

    def __init__(s, proj, name, smp, dll):
        super().__init__(proj, name)
        s.smp = smp
        s.env = numeric.Env()
        s.dll = dll
        s.bufs = {}
        s.fail = []
        s.checked = 0
        s.materialised = False
        s.nonfinite = False
        s.log = []
        s.on_before_call = None

    def requires(s, *fs):
        for f in fs:
            f = un(f)
            if isinstance(f, (list, tuple)):
                s.requires(*f)
                continue
            s.reqs.append(f)

    def requires_forall(s, leafpred, fn, n=None):
        s.reqs.append(("forall", fn, n))

    def hint(s, rx, sampler):
        super().hint(rx, sampler)
        s.smp.hints = s.hints

    # ---- values for symbols
    def value_of_const(s, c):
        n = c.decl().name()
        if n in s.env.c:
            return
        so = c.sort()
        if so == z3.RealSort():
            s.env.c[n] = float(s.smp.real(n))
        elif so == z3.IntSort():
            s.env.c[n] = int(s.smp.int(n))
        elif so == z3.BoolSort():
            s.env.c[n] = bool(s.smp.bool(n))
        elif isinstance(c, z3.BitVecRef):
            s.env.c[n] = (int(s.smp.model[n]) if n in s.smp.model else (int(s.smp.hint(n)(s.smp.rnd)) if callable(s.smp.hint(n)) else s.smp.rnd.getrandbits(c.size()) if s.smp.hint(n) is None else int(s.smp.rnd.choice(s.smp.hint(n))))) & ((1 << c.size()) - 1)

    def ensure_consts(s, t):
        st = [t]
        seen = set()
        while st:
            x = st.pop()
            if not isz(x) or x.get_id() in seen:
                continue
            seen.add(x.get_id())
            for i, c in T.consts_in([x]).items():
                if i in seen and not c.eq(x):
                    continue
                D = T.DEFS.get(i)
                if D is None:
                    s.value_of_const(c)
                else:
                    for a in D[2]:
                        if isz(a):
                            if a.get_id() not in seen:
                                s.ensure_consts(a)
                    if D[1] == 'read':
                        ix = int(numeric.ev(D[2][1], s.env)[0])
                        s.arr_value(c, ix)

    def arr_value(s, c, ix):
        key = (numeric.clean(c.decl().name()), ix)
        if key in s.env.a:
            return s.env.a[key]
        if key in s.smp.arr:
            v = s.smp.arr[key]
        else:
            nm = "%s" % key[0]
            so = c.sort()
            if so == z3.RealSort():
                v = float(s.smp.real(nm))
            elif so == z3.IntSort():
                v = int(s.smp.int(nm))
            elif isinstance(c, z3.BitVecRef):
                h = s.smp.hint(nm)
                v = (int(h(s.smp.rnd)) if callable(h) else s.smp.rnd.getrandbits(8) if h is None else int(s.smp.rnd.choice(h))) & ((1 << c.size()) - 1)
            else:
                v = bool(s.smp.bool(nm))
        if isinstance(c, z3.BitVecRef):
            v = int(v)
        if c.sort() == z3.RealSort():
            v = float(v)
        s.env.a[key] = v
        return v

    def num(s, t):
        t = un(t)
        if isinstance(t, bool):
            return t
        if not isz(t):
            return t if isinstance(t, int) else float(t)
        s.ensure_consts(t)
        r = numeric.ev(t, s.env)
        if isinstance(r, tuple):
            return r[0]
        return r

    # ---- memory image
    def count_of(s, r):
        if r.S is None:
            return 1
        n = r.count
        if n is None:
            return s.smp.maxn
        n = int(s.num(n))
        if n < 0 or n > 64:
            raise Reject("array size %d" % n)
        return n

    def settle(s):
        """choose all values, honour definitional requires, check the rest"""
        # sizes first
        defs = {}
        for f in s.reqs:
            if isinstance(f, tuple) or not isz(f):
                continue
            for g in ([f] if not z3.is_and(f) else f.children()):
                if z3.is_eq(g):
                    a, b = g.children()
                    for x, y in ((a, b), (b, a)):
                        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() not in T.DEFS \
                                and x.decl().name() not in s.env.c and x.decl().name() not in s.smp.model \
                                and x.get_id() not in T.consts_in([y]):
                            try:
                                v = s.num(y)
                            except numeric.Undefined as e:
                                raise Reject(str(e))
                            s.env.c[x.decl().name()] = float(v) if x.is_real() else v
                            break
        for f in s.reqs:
            if isinstance(f, tuple):
                continue
            if f is True:
                continue
            if f is False:
                raise Reject("requires false")
            try:
                s.ensure_consts(f)
                v = numeric.ev(f, s.env)
            except numeric.Undefined as e:
                raise Reject(str(e))
            if v is not True:
                # try to repair simple bounds
                raise Reject("requires: %s" % str(f)[:80])

    def check_forall(s):
        for f in s.reqs:
            if isinstance(f, tuple):
                _, fn, n = f
                n = int(s.num(un(n))) if n is not None else s.smp.maxn
                for i in range(n):
                    r = fn(S(i))
                    for g in (r if isinstance(r, (list, tuple)) else [r]):
                        g = un(g)
                        if g is True:
                            continue
                        if g is False:
                            raise Reject("forall")
                        try:
                            s.ensure_consts(g)
                            if numeric.ev(g, s.env) is not True:
                                raise Reject("forall requires")
                        except numeric.Undefined as e:
                            raise Reject(str(e))

    def alloc(s, r):
        if r.id in s.bufs:
            return s.bufs[r.id]
        n = s.count_of(r)
        z = (r.S if r.S is not None else r.bytes)
        buf = ctypes.create_string_buffer(z * n + 64)
        addr = ctypes.addressof(buf)
        s.bufs[r.id] = (buf, addr, n, z, r)
        return s.bufs[r.id]

    def addr_of(s, p):
        if isinstance(p, FuncPtr):
            return ctypes.cast(getattr(s.dll, p.name), ctypes.c_void_p).value
        if isinstance(p, PtrIte):
            return s.addr_of(p.a if s.num(p.c) else p.b)
        if isinstance(p, Opaque):
            return 0
        if p.r is None:
            return 0
        r = p.r
        if r.kind == "global":
            base = ctypes.addressof(ctypes.c_char.in_dll(s.dll, r.name))
            return base + int(s.num(p.b))
        if r.kind == "unknown":
            if r.id not in s.bufs:
                r.bytes = 4096
                s.alloc(r)
            return s.bufs[r.id][1]
        if r.kind == "heap" and r.id not in s.bufs:
            return 0
        b = s.alloc(r)
        return b[1] + int(s.num(p.i)) * (r.S or 0) + int(s.num(p.b))

    def write_all(s, st):
        for r in list(s.regions):
            s.alloc(r)
        for r in list(s.regions):
            buf, addr, n, z, _ = s.bufs[r.id]
            for i in range(n):
                for off, ty in r._leaves.items():
                    if off + tsize(ty) > z:
                        continue
                    try:
                        v = s.ex.load(st, Ptr(r, i if r.S is not None else 0, off), ty)
                    except EngineError:
                        continue
                    s.poke(addr + i * z + off, ty, v)

    def poke(s, a, ty, v):
        if isinstance(v, (Ptr, FuncPtr, PtrIte, Opaque)):
            ctypes.c_uint64.from_address(a).value = s.addr_of(v)
            return
        x = s.num(v)
        if ty.k == "double":
            ctypes.c_double.from_address(a).value = float(x)
        elif ty.k == "float":
            ctypes.c_float.from_address(a).value = float(x)
        elif ty.k == "i":
            n = ty.n
            x = int(x)
            {8: ctypes.c_uint8, 16: ctypes.c_int16, 32: ctypes.c_int32, 64: ctypes.c_int64}[n].from_address(a).value = \
                x & 0xff if n == 8 else x if not (n == 32 and x > 0x7fffffff) else x - (1 << 32)
        elif ty.k == "ptr":
            ctypes.c_uint64.from_address(a).value = 0

    def find_ptr(s, a):
        if a == 0:
            return NULL
        for rid, (buf, addr, n, z, r) in s.bufs.items():
            if addr <= a < addr + n * z or (a == addr + n * z):
                d = a - addr
                if r.S is not None:
                    return Ptr(r, d // z, d % z)
                return Ptr(r, 0, d)
        return Opaque("address")

    def read_all(s, st):
        n2 = st.fork()
        for rid, (buf, addr, n, z, r) in s.bufs.items():
            if r.kind == "unknown":
                continue
            cells = n2.cells(r, True)
            for off, ty in r._leaves.items():
                if off + tsize(ty) > z:
                    continue
                vals = []
                for i in range(n):
                    a = addr + i * z + off
                    if ty.k == "double":
                        x = ctypes.c_double.from_address(a).value
                        if x != x or x in (float("inf"), float("-inf")):
                            x = z3.Real("__nonfinite")
                            s.env.c["__nonfinite"] = float("nan")
                        else:
                            x = Fraction(x)
                    elif ty.k == "float":
                        x = Fraction(ctypes.c_float.from_address(a).value)
                    elif ty.k == "i":
                        x = {8: ctypes.c_uint8, 16: ctypes.c_int16, 32: ctypes.c_int32, 64: ctypes.c_int64}[ty.n].from_address(a).value
                        old = s.ex.load(st, Ptr(r, i if r.S is not None else 0, off), ty)
                        if isinstance(old, z3.BitVecRef):
                            x = z3.BitVecVal(x, old.size())
                    else:
                        x = s.find_ptr(ctypes.c_uint64.from_address(a).value)
                        if isinstance(x, Opaque):
                            # unchanged pointers keep their contract meaning
                            try:
                                o = s.ex.load(st, Ptr(r, i if r.S is not None else 0, off), ty)
                                x = o if isinstance(o, (Ptr, FuncPtr)) and s.addr_of(o) == ctypes.c_uint64.from_address(a).value else x
                            except EngineError:
                                pass
                    vals.append(x)
                if r.S is None:
                    cells[off] = vals[0]
                else:
                    cells[off] = ArrCell("concrete", tuple((i, v) for i, v in enumerate(vals)))
        return n2

    def call(s, fn, *args, st=None, allow_abort=False, assert_ok=False):
        name = s.proj.lookup(fn)
        f = s.ex.find(name)
        if st is None:
            st = s.st
        if not s.materialised:
            s.settle()
            s.materialised = True
        try:
            s.write_all(st)
            s.check_forall()
        except numeric.Undefined as e:
            raise Reject(str(e))
        cargs = []
        desc = []
        for (t, *_), x in zip(f.params, args):
            x = un(x)
            if isinstance(x, (Obj, Arr)):
                x = x.ptr()
            if t.k == "ptr":
                cargs.append(ctypes.c_void_p(s.addr_of(x)))
                desc.append(repr(x))
            else:
                v = s.num(x)
                desc.append(v)
                if t.k == "double":
                    cargs.append(ctypes.c_double(float(v)))
                elif t.k == "float":
                    cargs.append(ctypes.c_float(float(v)))
                elif t.k == "i":
                    cargs.append({1: ctypes.c_bool, 8: ctypes.c_uint8, 32: ctypes.c_int, 64: ctypes.c_long}[t.n](int(v)))
                else:
                    raise Reject("argument type " + t.k)
        cf = getattr(s.dll, name)
        cf.restype = {"void": None, "double": ctypes.c_double, "float": ctypes.c_float, "ptr": ctypes.c_void_p}.get(f.ret.k) if f.ret.k != "i" else \
            {1: ctypes.c_bool, 8: ctypes.c_uint8, 32: ctypes.c_int, 64: ctypes.c_long}[f.ret.n]
        if f.ret.k not in ("void", "double", "float", "ptr", "i"):
            raise Reject("return type")
        s.log.append((s.proj.dem[name], desc))
        if s.on_before_call:
            s.on_before_call(s)
        rv = cf(*cargs)
        if f.ret.k in ("double", "float"):
            if rv != rv or rv in (float("inf"), float("-inf")):
                s.env.c["__nonfinite"] = float("nan")
                rv = z3.Real("__nonfinite")
            else:
                rv = Fraction(rv)
        elif f.ret.k == "ptr":
            rv = s.find_ptr(rv or 0)
        elif f.ret.k == "i" and f.ret.n == 1:
            rv = bool(rv)
        n2 = s.read_all(st)
        return [Out(s, n2, rv, args)]

    def ensure(s, out, label, f):
        f = un(f)
        if isinstance(f, (list, tuple)):
            for i, x in enumerate(f):
                s.ensure(out, "%s[%d]" % (label, i), x)
            return
        s.checked += 1
        if f is True:
            return
        if f is False:
            s.fail.append(label)
            return
        try:
            s.ensure_consts(f)
            v = numeric.ev(f, s.env)
        except numeric.Undefined:
            return
        except EngineError:
            return
        if v is False:
            s.fail.append(label)

    def ensure_forall(s, out, label, fn):
        for i in range(s.smp.maxn):
            s.ensure(out, label, fn(S(i)))

    def each(s, out, N, fn):
        for i in range(int(s.num(N))):
            fn(S(i))

    def lemma(s, label, f, assuming=()):
        pass


def model_values(model):
    """z3 model -> ({name: value}, {(leaf, idx): value})"""
    vals, arr = {}, {}
    if model is None:
        return vals, arr

    def cv(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_bv_value(v):
            return v.as_long()
        return None
    for d in model.decls():
        if d.arity():
            continue
        x = cv(model[d])
        if x is None:
            continue
        vals[d.name()] = x
    byname = {c.decl().name(): (c, k, a) for c, k, a in T.DEFS.values()}
    for n, x in list(vals.items()):
        D = byname.get(n)
        if D is not None and D[1] == 'read':
            ix = cv(model.eval(D[2][1], model_completion=True))
            if ix is not None:
                arr[(numeric.clean(n), int(ix))] = x
    return vals, arr
