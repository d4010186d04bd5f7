"""Symbolic executor for clang -O0 LLVM IR: generates the proof obligations (see DESIGN.md, "gvc")."""
import re, itertools, time
from fractions import Fraction
import z3
from .ir import *
from . import terms as T
from .terms import isz, R, I, B, S, simp, conc_num


class EngineError(Exception):
    pass


BVLEAF = re.compile(r"\b_flag$")    # bit masks are kept as 32-bit vectors
OPAQUE_FN = re.compile(r"^(std::__cxx11::basic_string|std::basic_(i|o|io)?f?stream|std::__cxx11::basic_(i|o)?stringstream|std::operator<<|std::operator>>|std::operator\+|"
                       r"std::operator[=!]=|std::basic_ostream|std::basic_ostream|std::endl|std::flush|std::ostream|std::istream|std::basic_istream|std::ios_base|std::basic_ios|std::setw|std::setprecision|"
                       r"CodeTiming|BlockTimer|CodeTiming::|std::allocator<char>|bool std::operator|std::basic_(if|of|f)stream|(std::\S+ )?std::operator(<<|>>|\+)|std::__cxx11::to_string|debug_printf)|^std::\S+& std::(endl|flush|operator)|^std::__cxx11::basic_string<.*> std::operator\+|^std::_Set(w|precision)")


class NeedSplit(Exception):
    def __init__(s, term, hi=None):
        s.term = term
        s.hi = hi


class NeedInv(Exception):
    def __init__(s, header):
        s.header = header


class Ptr:
    __slots__ = ("r", "i", "b")   # region (None = null / integer address), element index, byte offset in element

    def __init__(s, r, i=0, b=0):
        s.r = r; s.i = i; s.b = b

    def __repr__(s):
        return "Ptr(%s,%s,%s)" % (s.r.name if s.r else None, s.i, s.b)


NULL = Ptr(None)


class PtrIte:
    __slots__ = ("c", "a", "b")

    def __init__(s, c, a, b):
        s.c = c; s.a = a; s.b = b


class FuncPtr:
    __slots__ = ("name",)

    def __init__(s, name):
        s.name = name


class Opaque:
    """a value the executor does not interpret (streams, strings, ...)"""
    __slots__ = ("what",)

    def __init__(s, what=""):
        s.what = what

    def __repr__(s):
        return "Opaque(%s)" % s.what


class Region:
    _n = itertools.count(1)
    by_id = {}

    def __init__(s, name, S=None, ltype=None, mod=None, cls=None, kind="input", count=None):
        s.id = next(Region._n)
        s.name = name
        s.S = S              # element size for array regions, None for single objects
        s.ltype = ltype; s.mod = mod
        s.cls = cls          # layout (C++ class) name
        s.kind = kind
        s.count = count
        s.init = {}          # scalar: off -> value
        s.ainit = {}         # array: off -> callable(idx) -> value
        s._leaf = None
        s.ranges = {}
        s.elemtypes = {}
        s.freed = False
        s._leaves = None
        Region.by_id[s.id] = s

    def __repr__(s):
        return "Region(%s)" % s.name

    def leafmap(s):
        if s._leaf is None:
            if s._leaves is not None:
                s._leaf = s._leaves
            else:
                s._leaf = dict(s.mod.leaves(s.ltype)) if s.ltype is not None and s.mod is not None else {}
        return s._leaf


class ArrCell:
    """contents of one leaf of an array region: base (token) + list of writes, newest last"""
    __slots__ = ("base", "writes")

    def __init__(s, base, writes=()):
        s.base = base; s.writes = writes


def same(a, b):
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.r is b.r and same(a.i, b.i) and same(a.b, b.b)
    if isinstance(a, FuncPtr) and isinstance(b, FuncPtr):
        return a.name == b.name
    if isz(a) or isz(b):
        return False
    if isinstance(a, (int, Fraction, bool)) and isinstance(b, (int, Fraction, bool)):
        return type(a) == type(b) and a == b or (not isinstance(a, bool) and not isinstance(b, bool) and a == b)
    if isinstance(a, ArrCell) and isinstance(b, ArrCell):
        return a.base == b.base and len(a.writes) == len(b.writes) and all(
            same(x[0], y[0]) and same(x[1], y[1]) for x, y in zip(a.writes, b.writes))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


class State:
    _uid = itertools.count(1)

    def __init__(s):
        s.mem = {}       # rid -> dict off -> cell
        s.own = set()    # rids whose dict this state owns
        s.pc = []
        s.env = {}
        s.known = {}
        s.ghost = {}
        s.trace = ()
        s.facts = ()
        s.depth = 0

    def fork(s):
        n = State()
        n.mem = dict(s.mem)
        n.own = set()
        s.own = set()
        n.pc = list(s.pc)
        n.env = dict(s.env)
        n.known = dict(s.known)
        n.ghost = dict(s.ghost)
        n.trace = s.trace
        n.facts = s.facts
        n.depth = s.depth
        return n

    def cells(s, r, write=False):
        d = s.mem.get(r.id)
        if d is None:
            if not write:
                return {}
            d = s.mem[r.id] = {}
            s.own.add(r.id)
            return d
        if write and r.id not in s.own:
            d = s.mem[r.id] = dict(d)
            s.own.add(r.id)
        return d

    def assume(s, c):
        """add to the path condition; False if it becomes contradictory syntactically"""
        if c is True:
            return True
        if c is False:
            s.pc.append(z3.BoolVal(False))
            return False
        s.pc.append(c)
        # learn equalities var == const
        if z3.is_eq(c):
            a, b = c.children()
            for x, y in ((a, b), (b, a)):
                v = conc_num(y)
                if v is not None and not isinstance(v, bool) and conc_num(x) is None and isinstance(x, z3.ArithRef) and x.is_int():
                    s.known[x.get_id()] = (int(v), x)
        return True


class Outcome:
    __slots__ = ("kind", "st", "val", "info")

    def __init__(s, kind, st, val=None, info=None):
        s.kind = kind; s.st = st; s.val = val; s.info = info


class BadPtr:
    """a pointer about which nothing is known: any dereference is an engine error"""
    __slots__ = ("what",)

    def __init__(s, what=""):
        s.what = what

    def __repr__(s):
        return "BadPtr(%s)" % s.what


class LoopCtx:
    """what an invariant provider sees"""

    def __init__(s, ex, entry, cur, K, fn, header):
        s.ex = ex; s.entry = entry; s.cur = cur; s.K = K; s.fn = fn; s.header = header
        s.kstack = list(ex.kstack)

    def outer(s, n=1):
        """iteration number of the n-th enclosing loop that is under an invariant"""
        return s.kstack[-n]

    def accumulators(s):
        """current values of the real-valued locals that the loop modifies and that have a value before it, in order of declaration"""
        r = []
        for rid, off in sorted(s.M):
            g = s.ex.region_by_id[rid]
            if g.S is not None:
                continue
            e0 = s.entry.mem.get(rid, {}).get(off)
            if e0 is None:
                e0 = g.init.get(off)
            if e0 is None or not (isinstance(e0, Fraction) or z3.is_expr(e0) and z3.is_real(e0)):
                continue
            r.append(s.cur.mem.get(rid, {}).get(off, e0))
        return r

    def counters(s):
        """current values of the integer locals that the loop modifies otherwise than by a constant step, in order of declaration"""
        r = []
        for rid, off in sorted(s.M):
            g = s.ex.region_by_id[rid]
            if g.S is not None or s.ind.get((rid, off), ("",))[0] == "step":
                continue
            e0 = s.entry.mem.get(rid, {}).get(off)
            if e0 is None:
                e0 = g.init.get(off)
            if e0 is None or not T.isintv(e0) or isinstance(e0, bool):
                continue
            r.append(s.cur.mem.get(rid, {}).get(off, e0))
        return r

    def local(s, name, st=None):
        """value of the local variable called `name` (alloca) of the function containing the loop"""
        st = st or s.cur
        p = st.env.get(name)
        if p is None:
            raise EngineError("no local " + name)
        return s.ex.peek(st, p)


class Executor:
    def __init__(s, modules, layouts=None):
        s.mods = modules
        s.layouts = layouts
        s.stubs = []          # (regex on demangled name, handler)
        s.stub_cache = {}
        s.globals = {}
        s.demangled = {}
        s.kstack = []
        s.loop_invs = []      # invariant providers in order of first encounter of symbolic loops
        s.loop_seen = {}
        s.loop_modes = []     # (regex on fn, ordinal or None, 'unroll'/'inv')
        s.unroll_bound = None # bounded mode
        s.bounded_cut = 0
        s.obls = []           # side obligations: (name, state pc, formula)
        s.side = []           # aborted paths etc: (kind, state, info)
        s.max_paths = 4000
        s.npaths = 0
        s.inlined = {}
        s.stubbed = {}
        s.feas_timeout = 150
        s.merge_calls = True
        s.merge_joins = False
        s.group_returns = False
        s.fact_depth = 2
        s.assert_mode = 'check'   # or 'assume', 'learn'
        s.guards = {}
        s.assert_blocks = {}
        s.check_div0 = False
        s.trusted_hits = {}
        s.maxiter = 2000
        s.on_uninit = None
        s.bool_leaf = True
        s.abort_kinds = {}
        s.deadline = None
        s.solver_calls = 0
        s.int_ranges = True
        s.auto_inv = True
        s.loops_log = []
        s.cur_fn = []
        s.path_choice = None
        s.check_bounds = True
        s.bounds_done = {}
        s.inspec = 0

    # ------------------------------------------------------------------ lookup
    def alias(s, name):
        for m in s.mods:
            txt = m.gtext.get(name)
            if txt is not None and re.match(r"[\w ]*\balias\b", txt):
                return re.search(r'ptr @("?)([^",\s]+)\1\s*(,|$)', txt).group(2)
        return name

    def find(s, name):
        name = s.alias(name)
        for m in s.mods:
            if name in m.ftext:
                return m.func(name)
        return None

    def dem(s, name):
        return s.demangled.get(name, name)

    # ------------------------------------------------------------------ feasibility
    def feasible(s, st, extra=None):
        fs = [c for c in st.pc if c is not True]
        if extra is not None and extra is not True:
            if extra is False:
                return False
            fs = fs + [extra]
        if not fs:
            return True
        s.solver_calls += 1
        ax = T.close(fs, s.fact_inst(st))
        so = z3.SolverFor('QF_NRA') if False else z3.Solver()
        so.set('timeout', s.feas_timeout)
        so.add(*fs)
        so.add(*ax)
        return so.check() != z3.unsat

    def prove_now(s, st, f, timeout=2000):
        if f is True:
            return True
        if f is False:
            return False
        fs = [c for c in st.pc if c is not True] + [z3.Not(f)]
        ax = T.close(fs, s.fact_inst(st))
        so = z3.Solver()
        so.set('timeout', timeout)
        so.add(*fs)
        so.add(*ax)
        s.solver_calls += 1
        return so.check() == z3.unsat

    def fact_inst(s, st):
        """instantiates universally quantified facts of the state at the array indices in the query"""
        if not st.facts:
            return None
        done = set()
        depths = {}

        def depth(t):
            """nesting of array reads in an index: chains such as next(next(i)) are instantiated to a finite depth only"""
            if not isz(t):
                return 0
            i = t.get_id()
            if i not in depths:
                depths[i] = 0
                depths[i] = max([0] + [(1 if d[1] == 'read' else 0) + max([0] + [depth(a) for a in d[2] if isz(a)])
                                       for d in (T.DEFS.get(k) for k in T.consts_in([t])) if d])
            return depths[i]

        def extra(newdefs):
            out = []
            for (leafpred, fn, tag) in st.facts:
                for (c, kind, args) in newdefs:
                    if kind == 'read' and leafpred(args[0]):
                        key = (tag, args[1].get_id() if isz(args[1]) else args[1])
                        if key in done:
                            continue
                        done.add(key)
                        if depth(args[1]) > s.fact_depth:
                            continue
                        s.inspec += 1
                        f = fn(args[1])
                        s.inspec -= 1
                        out += [x for x in (f if isinstance(f, list) else [f]) if isz(x)]
            return out
        extra.fresh = lambda: s.fact_inst(st)     # every query starts without instances
        return extra

    # ------------------------------------------------------------------ memory
    def leaf_init(s, r, off, ty, idx=None):
        """initial (unknown) value of a leaf"""
        if r.S is None:
            v = r.init.get(off)
            if v is None:
                if r.kind == "global":
                    v = s.global_leaf(r, off, ty)
                else:
                    if s.on_uninit and r.kind == "alloca":
                        s.on_uninit(r, off, ty)
                    nm = "%s.%s" % (r.name, s.leaf_name(r, off))
                    v = s.sym(nm, ty, r)
                r.init[off] = v
            return v
        h = r.ainit.get(off)
        if h is not None:
            return h(idx)
        return s.read_const(r, off, "0", ty, idx)

    def leaf_name(s, r, off):
        if s.layouts and r.cls:
            n = s.layouts.name_at(r.cls, off)
            if n:
                return n
        return "+%d" % off

    def sym(s, nm, ty, r=None):
        k = ty.k
        if k in ("double", "float"):
            return z3.Real(nm)
        if k == "i":
            if ty.n in (1, 8):
                return z3.If(z3.Bool(nm), z3.IntVal(1), z3.IntVal(0)) if ty.n == 8 else z3.Bool(nm)
            if ty.n == 32 and BVLEAF.search(nm):
                return z3.BitVec(nm, 32)
            return z3.Int(nm)
        if k == "ptr":
            # a pointer never described by the contract: an unknown object
            return Ptr(Region(nm + "@", kind="unknown"))
        if k == "x86_fp80":
            return z3.Real(nm)
        raise EngineError("sym " + k)

    def read_const(s, r, off, base, ty, idx):
        key = "%d:%d:%s" % (r.id, off, base)
        if isinstance(idx, int):
            ix = I(idx)
        else:
            ix = z3.simplify(I(idx))
        nm = "%s[].%s" % (r.name, s.leaf_name(r, off))
        k = ty.k
        if k in ("double", "float"):
            c = T.mkdef('read', (key, ix), 'real', nm)
        elif k == "i" and ty.n == 8:
            c = T.mkdef('read', (key, ix), 'bool', nm)
            return z3.If(c, z3.IntVal(1), z3.IntVal(0))
        elif k == "i":
            c = T.mkdef('read', (key, ix), 'bv32' if ty.n == 32 and BVLEAF.search(nm) else 'int', nm)
        elif k == "ptr":
            raise EngineError("read of undeclared pointer array %s off %d" % (r.name, off))
        else:
            raise EngineError("read_const " + k)
        return c

    def idx_eq(s, st, a, b):
        """True / False / condition"""
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        a2 = s.resolve_int(st, a)
        b2 = s.resolve_int(st, b)
        if isinstance(a2, int) and isinstance(b2, int):
            return a2 == b2
        d = simp(I(a2) - I(b2))
        if isinstance(d, int):
            return d == 0
        c = simp(I(a2) == I(b2))
        if isinstance(c, bool):
            return c
        # linear reasoning over integer facts of the path condition
        ip = [p for p in st.pc if s._int_only(p)]
        so = z3.Solver()
        so.set('timeout', 300)
        so.add(*ip)
        so.push()
        so.add(c)
        if so.check() == z3.unsat:
            return False
        so.pop()
        so.add(z3.Not(c))
        if so.check() == z3.unsat:
            return True
        return c

    _io = {}

    def _int_only(s, p):
        i = p.get_id()
        r = s._io.get(i)
        if r is None:
            r = True
            st = [p]
            n = 0
            while st and n < 200:
                t = st.pop()
                n += 1
                if isinstance(t, z3.ArithRef) and t.is_real():
                    r = False
                    break
                if isinstance(t, z3.BitVecRef):
                    r = False
                    break
                st.extend(t.children())
            if st and r:
                r = False
            s._io[i] = r
            T._KEEP.append(p)
        return r

    def resolve_int(s, st, t):
        if isz(t):
            k = st.known.get(t.get_id())
            if k is not None:
                return k[0]
            v = conc_num(t)
            if v is None:
                t2 = z3.simplify(t)
                k = st.known.get(t2.get_id())
                if k is not None:
                    return k[0]
                v = conc_num(t2)
            if v is not None:
                return int(v)
        return t

    def region_sub(s, r, ptr):
        return r

    def load(s, st, p, ty):
        if isinstance(p, PtrIte):
            return s.vite(p.c, s.load(st, p.a, ty), s.load(st, p.b, ty))
        if not isinstance(p, Ptr):
            if isinstance(p, Opaque):
                return Opaque("load")
            raise EngineError("load through %r" % (p,))
        r = p.r
        if r is None:
            raise EngineError("load through null")
        if r.kind == "opaque":
            return Opaque(r.name)
        b = p.b
        if isz(b):
            b2 = s.resolve_int(st, b)
            if isz(b2):
                raise NeedSplit(b)
            b = b2
        if ty.k in ("struct", "named", "arr"):
            rt = s.cur_mod.resolve(ty) if ty.k == "named" else ty
            if rt.k == "arr":
                z = s.cur_mod.size(rt.a)
                return tuple(s.load(st, Ptr(r, p.i, b + i * z), rt.a) for i in range(rt.n))
            return tuple(s.load(st, Ptr(r, p.i, b + o), f) for o, f in zip(s.cur_mod.offsets(rt), rt.a))
        if r.S is None:
            if isz(p.i) or p.i != 0:
                raise EngineError("index into scalar region " + r.name)
            d = st.mem.get(r.id)
            if d is not None:
                v = d.get(b)
                if v is not None:
                    return v
            v = s.leaf_init(r, b, ty)
            return v
        idx = s.resolve_int(st, p.i)
        if s.check_bounds and r.count is not None:
            s.bounds(st, r, idx)
        d = st.mem.get(r.id)
        cell = d.get(b) if d is not None else None
        if cell is None:
            return s.leaf_init(r, b, ty, idx)
        chain = []
        for (wi, wv) in reversed(cell.writes):
            e = s.idx_eq(st, idx, wi)
            if e is True:
                res = wv
                break
            if e is False:
                continue
            chain.append((e, wv))
        else:
            if cell.base is None:
                res = s.leaf_init(r, b, ty, idx)
            elif callable(cell.base):
                res = cell.base(idx)
            else:
                res = s.read_const(r, b, cell.base, ty, idx)
        for e, wv in reversed(chain):
            res = s.vite(e, wv, res)
        return res

    def bounds(s, st, r, idx):
        if getattr(s, 'quiet', 0) or s.inspec or not s.cur_fn:
            return
        cnt = r.count
        if isinstance(idx, int) and isinstance(cnt, int):
            f = 0 <= idx < cnt
            if f:
                return
        else:
            f = simp_bool(z3.And(I(idx) >= 0, I(idx) < I(cnt)))
            if f is True:
                return
        key = (r.id, f.get_id() if isz(f) else f)
        for old in s.bounds_done.get(key, ()):
            n = len(old)
            if n <= len(st.pc) and (n == 0 or all(x is y for x, y in zip(old, st.pc))):
                return
        s.bounds_done.setdefault(key, []).append(list(st.pc))
        if isz(f):
            T._KEEP.append(f)
        s.obls.append(("%s:index of %s in bounds" % (s.short(s.cur_fn[-1]), r.name.split("!")[0]), st.fork(), f, s.cur_fn[-1]))

    def vite(s, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if same(a, b):
            return a
        if isinstance(a, (Ptr, PtrIte, FuncPtr)) or isinstance(b, (Ptr, PtrIte, FuncPtr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and a.r is not None and not isz(a.b) and a.b == b.b:
                return Ptr(a.r, T.ite(c, a.i, b.i), a.b)
            return PtrIte(c, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("ite")
        if isinstance(a, tuple):
            return tuple(s.vite(c, x, y) for x, y in zip(a, b))
        return T.ite(c, a, b)

    def peek(s, st, p, ty=None):
        r = p.r
        if ty is None:
            ty = r.leafmap().get(p.b)
        return s.load(st, p, ty)

    def store(s, st, p, v, ty):
        if isinstance(p, PtrIte):
            raise NeedSplit(p.c)
        if not isinstance(p, Ptr):
            if isinstance(p, Opaque):
                return
            raise EngineError("store through %r" % (p,))
        r = p.r
        if r is None:
            raise EngineError("store through null")
        if r.kind == "opaque":
            return
        b = p.b
        if isz(b):
            b2 = s.resolve_int(st, b)
            if isz(b2):
                raise NeedSplit(b)
            b = b2
        if ty.k in ("struct", "named", "arr"):
            rt = s.cur_mod.resolve(ty) if ty.k == "named" else ty
            if isinstance(v, Opaque):
                return
            if rt.k == "arr":
                z = s.cur_mod.size(rt.a)
                for i in range(rt.n):
                    s.store(st, Ptr(r, p.i, b + i * z), v[i], rt.a)
                return
            for o, f, x in zip(s.cur_mod.offsets(rt), rt.a, v):
                s.store(st, Ptr(r, p.i, b + o), x, f)
            return
        if r.S is None:
            if isz(p.i) or p.i != 0:
                raise EngineError("index into scalar region " + r.name)
            st.cells(r, True)[b] = v
            return
        idx = s.resolve_int(st, p.i)
        if s.check_bounds and r.count is not None:
            s.bounds(st, r, idx)
        d = st.cells(r, True)
        r.elemtypes[b] = ty
        cell = d.get(b)
        if cell is None:
            d[b] = ArrCell(None, ((idx, v),))
            return
        # drop overwritten entries with the very same index
        w = tuple(x for x in cell.writes if not same(x[0], idx))
        d[b] = ArrCell(cell.base, w + ((idx, v),))

    def memcpy(s, st, dst, src, n):
        n = s.resolve_int(st, n)
        if isinstance(dst, Opaque) or isinstance(src, Opaque):
            return
        for q in (dst, src):
            if isinstance(q, PtrIte):
                raise NeedSplit(q.c)
        if isz(n):
            raise EngineError("memcpy of symbolic size")
        if n == 0:
            return
        sr = src.r
        if sr is None or dst.r is None:
            raise EngineError("memcpy null")
        # multi-element copies out of array regions
        leaves = sr.leafmap()
        cells = st.mem.get(sr.id) or {}
        sb = src.b
        if isz(sb):
            raise NeedSplit(sb)
        todo = []
        if sr.S is None or sb + n <= sr.S:
            for o, t in leaves.items():
                if sb <= o < sb + n:
                    todo.append((0, o, t))
            if not leaves:
                for o in cells:
                    if sb <= o < sb + n:
                        todo.append((0, o, None))
                for o in sr.init:
                    if sb <= o < sb + n and o not in cells:
                        todo.append((0, o, None))
        else:
            if n % sr.S or sb:
                raise EngineError("partial multi-element memcpy")
            for e in range(n // sr.S):
                for o, t in leaves.items():
                    todo.append((e, o, t))
        if not todo:
            if sr.kind == "unknown":
                return
            raise EngineError("memcpy from untyped %s" % sr.name)
        vals = []
        for e, o, t in todo:
            v = s.load(st, Ptr(sr, s.iadd(src.i, e), o), t or DBL)
            vals.append((e * (sr.S or 0) + o - sb, v, t or DBL))
        for rel, v, t in vals:
            s.store(st, s.ptr_add(st, dst, rel), v, t)

    def iadd(s, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        if isinstance(b, int) and b == 0:
            return a
        return z3.simplify(I(a) + I(b))

    def ptr_add(s, st, p, nbytes):
        """concrete byte offset"""
        if isinstance(p, PtrIte):
            return PtrIte(p.c, s.ptr_add(st, p.a, nbytes), s.ptr_add(st, p.b, nbytes))
        if isinstance(p, Opaque):
            return p
        r = p.r
        if r is None:
            if nbytes == 0:
                return p
            return Ptr(None, 0, p.b + nbytes)
        b = p.b + nbytes
        i = p.i
        if r.S is not None and not isz(b) and (b < 0 or b >= r.S):
            i = s.iadd(i, b // r.S)
            b = b % r.S
        return Ptr(r, i, b)

    # ------------------------------------------------------------------ globals
    def global_ptr(s, name):
        name = s.alias(name)
        if s.find(name) is not None or any(name in m.decls for m in s.mods) and not any(name in m.gtext for m in s.mods):
            return FuncPtr(name)
        r = s.globals.get(name)
        if r is None:
            g = None
            for m in s.mods:
                if name in m.gtext:
                    gg = m.glob(name)
                    if gg is None:
                        continue
                    if gg[1] is not None or g is None:
                        g = (m, gg)
                        if gg[1] is not None:
                            break
            if g is None:
                r = Region(name, kind="global")
            else:
                m, (t, init, kind) = g
                r = Region(name, ltype=t, mod=m, kind="global")
                r.ginit = init
                r.gconst = (kind == "constant")
            s.globals[name] = r
        return Ptr(r, 0, 0)

    def global_leaf(s, r, off, ty):
        init = getattr(r, 'ginit', None)
        if init is None or not getattr(r, 'gconst', False):
            return s.sym("%s+%d" % (r.name, off), ty)
        m = r.mod
        t = r.ltype
        o = off
        cur = init
        while True:
            if cur[0] == "zero":
                return s.zero(ty)
            if t.k == "named":
                t = m.resolve(t)
            if t.k == "struct":
                offs = m.offsets(t)
                for i in range(len(offs) - 1, -1, -1):
                    if offs[i] <= o:
                        break
                o -= offs[i]
                cur = cur[1][i][1]
                t = t.a[i]
            elif t.k == "arr":
                if cur[0] == "cstr":
                    raise EngineError("char of string constant")
                z = m.size(t.a)
                i = o // z
                o -= i * z
                cur = cur[1][i][1]
                t = t.a
            else:
                return s.constop(cur, t)

    def zero(s, ty):
        if ty.k in ("double", "float", "x86_fp80"):
            return Fraction(0)
        if ty.k == "i":
            return False if ty.n == 1 else 0
        if ty.k == "ptr":
            return NULL
        if ty.k == "named":
            return s.zero(s.cur_mod.resolve(ty))
        if ty.k == "struct":
            return tuple(s.zero(f) for f in ty.a)
        if ty.k == "arr":
            return tuple(s.zero(ty.a) for _ in range(ty.n))
        raise EngineError("zero")

    # ------------------------------------------------------------------ operands
    def constop(s, o, ty):
        k = o[0]
        if k == "int":
            if ty.k == "i" and ty.n == 1:
                return bool(o[1])
            return o[1]
        if k == "flt":
            v = fp_value(o[1], ty)
            if isinstance(v, str):
                c = z3.Real("__" + v.replace("-", "neg_"))
                return c
            return v
        if k == "bool":
            return o[1]
        if k == "null":
            return NULL
        if k == "zero":
            return s.zero(ty)
        if k == "undef":
            return s.undef(ty)
        if k == "glob":
            return s.global_ptr(o[1])
        if k == "gep":
            _, st_, base, idx = o
            p = s.constop(base, PTR)
            return s.gep(None, p, st_, [(t, s.constop(v, t)) for t, v in idx])
        if k == "cast":
            return s.constop(o[3], o[2])
        if k == "agg":
            return tuple(s.constop(v, t) for t, v in o[1])
        if k == "cstr":
            return Opaque("cstr")
        raise EngineError("constop %r" % (o,))

    def undef(s, ty):
        if ty.k in ("double", "float"):
            return T.fresh("undef")
        if ty.k == "i":
            return T.fresh("undef", "bool") if ty.n == 1 else T.fresh("undef", "int")
        if ty.k == "ptr":
            return NULL
        if ty.k == "named":
            return s.undef(s.cur_mod.resolve(ty))
        if ty.k == "struct":
            return tuple(s.undef(f) for f in ty.a)
        if ty.k == "arr":
            return tuple(s.undef(ty.a) for _ in range(ty.n))
        raise EngineError("undef")

    def val(s, st, o, ty):
        if o[0] == "reg":
            try:
                return st.env[o[1]]
            except KeyError:
                raise EngineError("unbound %" + o[1])
        return s.constop(o, ty)

    def gep(s, st, p, ty, idx):
        if isinstance(p, Opaque):
            return p
        if isinstance(p, PtrIte):
            return PtrIte(p.c, s.gep(st, p.a, ty, idx), s.gep(st, p.b, ty, idx))
        if not isinstance(p, Ptr):
            raise EngineError("gep on %r" % (p,))
        m = s.cur_mod
        r = p.r
        i0 = idx[0][1]
        if st is not None:
            i0 = s.resolve_int(st, i0)
        ps = getattr(r, "pending_S", None)
        if ps is not None and r.S is None and not r.leafmap() and m.size(ty) == ps and not (st and st.mem.get(r.id)):
            r.S = ps
            r.ltype = ty; r.mod = m
            r.elemcls = None
        sz = m.size(ty) if not (isinstance(i0, int) and i0 == 0) else 0
        if isinstance(i0, int):
            p = s.ptr_add(st, p, i0 * sz) if i0 else p
        elif r is None:
            raise EngineError("symbolic gep on null")
        else:
            if r.S is None and r.kind in ("heap", "unknown") and not r.leafmap() and not (st and st.mem.get(r.id)):
                r.S = sz
                r.ltype = ty; r.mod = m
                r.elemcls = None
                ps = getattr(r, "pending_S", None)
                nb = getattr(r, "bytes", None)
                if ps is not None:
                    r.count = r.count if ps == sz else z3.simplify(r.count * (ps // sz)) if ps % sz == 0 else None
                elif isinstance(nb, int) and sz and nb % sz == 0:
                    r.count = nb // sz
            if r.S is None:
                # symbolic index inside a small object: case split
                raise NeedSplit(i0)
            q = s.int_quot(i0, r.S // sz) if sz and r.S % sz == 0 and sz != r.S else None
            if sz == r.S:
                p = Ptr(r, s.iadd(p.i, i0), p.b)
            elif q is not None:
                p = Ptr(r, s.iadd(p.i, q), p.b)
            elif sz and sz % r.S == 0:
                p = Ptr(r, s.iadd(p.i, z3.simplify(I(i0) * (sz // r.S))), p.b)
            else:
                raise NeedSplit(i0)
        t = ty
        for (it, iv) in idx[1:]:
            if t.k == "named":
                t = m.resolve(t)
            if st is not None:
                iv = s.resolve_int(st, iv)
            if t.k == "struct":
                p = s.ptr_add(st, p, m.offsets(t)[iv])
                t = t.a[iv]
            elif t.k == "arr":
                z = m.size(t.a)
                if isinstance(iv, int):
                    p = s.ptr_add(st, p, iv * z)
                elif p.r is not None and p.r.S == z and not isz(p.b):
                    p = Ptr(p.r, s.iadd(p.i, iv), p.b)
                elif p.r is not None and p.r.S is not None and z % p.r.S == 0:
                    p = Ptr(p.r, s.iadd(p.i, z3.simplify(I(iv) * (z // p.r.S))), p.b)
                else:
                    raise NeedSplit(iv, t.n)
                t = t.a
            else:
                raise EngineError("gep into " + t.k)
        return p

    # ------------------------------------------------------------------ instructions
    def alloca(s, st, i, fnname):
        m = s.cur_mod
        t = i.ty
        nm = "%s" % (i.dst,)
        cnt = 1
        if i.args is not None:
            c = s.resolve_int(st, s.val(st, i.args[1], i.args[0]))
            return Ptr(Region(nm, S=m.size(t), ltype=t, mod=m, kind="alloca", count=c), 0, 0)
        if t.k == "arr" and t.n > 32:
            et = t.a
            return Ptr(Region(nm, S=m.size(et), ltype=et, mod=m, kind="alloca", count=t.n), 0, 0)
        return Ptr(Region(nm, ltype=t, mod=m, kind="alloca"), 0, 0)

    def int_div(s, st, a, b, rem):
        a = s.resolve_int(st, a); b = s.resolve_int(st, b)
        if isinstance(a, int) and isinstance(b, int):
            if b == 0:
                return T.fresh("div0", "int")
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return a - q * b if rem else q
        a2, b2 = I(a), I(b)
        if isinstance(b, int) and b != 0:
            # exact division of a syntactic multiple
            q = z3.simplify(a2, som=True)
            co = s.coeffs(q)
            if co is not None and all(c % b == 0 for c, _ in co):
                if rem:
                    return 0
                return z3.simplify(z3.Sum([I(c // b) * t if t is not None else I(c // b) for c, t in co]) if co else I(0))
        nonneg = s.prove_int(st, z3.And(a2 >= 0, b2 > 0))
        if nonneg:
            return a2 % b2 if rem else a2 / b2
        q = z3.If(b2 > 0, z3.If(a2 >= 0, a2 / b2, -((-a2) / b2)), z3.If(a2 >= 0, -(a2 / (-b2)), (-a2) / (-b2)))
        return a2 - q * b2 if rem else q

    def coeffs(s, t):
        """linear combination [(coef, term|None)] or None"""
        if z3.is_add(t):
            out = []
            for c in t.children():
                x = s.coeffs(c)
                if x is None:
                    return None
                out += x
            return out
        v = conc_num(t)
        if v is not None:
            return [(int(v), None)]
        if z3.is_mul(t):
            ch = t.children()
            v = conc_num(ch[0])
            if v is not None:
                rest = ch[1] if len(ch) == 2 else z3.Product(*ch[1:])
                return [(int(v), rest)]
        return [(1, t)]

    def int_quot(s, t, k):
        """t / k when every coefficient of the linear term t is divisible by k"""
        out = []
        for c, x in s.coeffs(z3.simplify(I(t))):
            if c % k:
                return None
            out.append(z3.IntVal(c // k) if x is None else (c // k) * x)
        return z3.simplify(z3.Sum(out)) if len(out) > 1 else z3.simplify(out[0])

    def prove_int(s, st, f):
        ip = [p for p in st.pc if s._int_only(p)]
        so = z3.Solver()
        so.set('timeout', 300)
        so.add(*ip)
        so.add(z3.Not(f))
        return so.check() == z3.unsat

    def binop(s, st, i):
        op = i.op
        x = s.val(st, i.args[0], i.ty)
        y = s.val(st, i.args[1], i.ty)
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            return Opaque(op)
        if op == "fadd":
            return T.fadd(x, y)
        if op == "fsub":
            return T.fsub(x, y)
        if op == "fmul":
            return T.fmul(x, y)
        if op == "fdiv":
            if s.check_div0:
                s.obls.append(("div0", st.fork(), T.not_(T.eq(y, 0)), s.cur_fn[-1] if s.cur_fn else ""))
            return T.fdiv(x, y)
        w = i.ty.n
        if isinstance(x, (Ptr, PtrIte)) or isinstance(y, (Ptr, PtrIte)):
            return s.ptr_arith(st, op, x, y)
        if isinstance(x, z3.BitVecRef) or isinstance(y, z3.BitVecRef):
            a, b = T.bv(x, w), T.bv(y, w)
            return z3.simplify({'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b,
                                'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b,
                                'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b, 'urem': lambda: z3.URem(a, b),
                                'udiv': lambda: z3.UDiv(a, b), 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]())
        if w == 1 or isinstance(x, (bool, z3.BoolRef)) or isinstance(y, (bool, z3.BoolRef)):
            def tb(v):
                return v if isinstance(v, (bool, z3.BoolRef)) else bool(v)
            if w == 1:
                x, y = tb(x), tb(y)
                if op == "and":
                    return T.and_(x, y)
                if op == "or":
                    return T.or_(x, y)
                if op in ("xor", "add", "sub"):
                    if isinstance(y, bool):
                        return T.not_(x) if y else x
                    if isinstance(x, bool):
                        return T.not_(y) if x else y
                    return z3.Xor(x, y)
                raise EngineError("i1 " + op)
            x = I(x) if isz(x) else int(x)
            y = I(y) if isz(y) else int(y)
        x = s.resolve_int(st, x); y = s.resolve_int(st, y)
        if isinstance(x, int) and isinstance(y, int):
            if op == "add":
                return x + y
            if op == "sub":
                return x - y
            if op == "mul":
                return x * y
            if op in ("sdiv", "udiv"):
                return s.int_div(st, x, y, False)
            if op in ("srem", "urem"):
                return s.int_div(st, x, y, True)
            M = (1 << w) - 1
            r = {'and': lambda: (x & M) & (y & M), 'or': lambda: (x & M) | (y & M), 'xor': lambda: (x & M) ^ (y & M),
                 'shl': lambda: (x << y) & M, 'lshr': lambda: (x & M) >> y, 'ashr': lambda: x >> y}[op]()
            if op in ("and", "or", "xor", "shl") and r > M >> 1:
                r -= M + 1
            return r
        if op == "add":
            return I(x) + I(y)
        if op == "sub":
            return z3.simplify(I(x) - I(y))
        if op == "mul":
            return I(x) * I(y)
        if op in ("sdiv", "udiv"):
            return s.int_div(st, x, y, False)
        if op in ("srem", "urem"):
            return s.int_div(st, x, y, True)
        if op == "shl":
            if isinstance(y, int):
                return I(x) * (1 << y)
            if isinstance(x, int):
                return I(x) * T.uf("pow2", I(y), sort='int')
        if op in ("ashr", "lshr") and isinstance(y, int):
            return I(x) / (1 << y)   # floor division, as arithmetic shift
        if op in ("and",) and isinstance(y, int) and y >= 0 and (y & (y + 1)) == 0:
            return I(x) % (y + 1)
        if op == "xor" and y == -1:
            return -I(x) - 1
        # bitwise on 0/1 values (bools held in integers)
        cx, cy = as01(x), as01(y)
        if cx is not None and cy is not None:
            c = T.and_(cx, cy) if op == "and" else T.or_(cx, cy) if op == "or" else T.not_(T.eq(cx, cy)) if op == "xor" else None
            if c is not None:
                return int(c) if isinstance(c, bool) else z3.If(c, z3.IntVal(1), z3.IntVal(0))
        # general bitwise on integers
        a, b = z3.Int2BV(I(x), w), z3.Int2BV(I(y), w)
        return z3.BV2Int({'and': a & b, 'or': a | b, 'xor': a ^ b}[op], True)

    def ptr_arith(s, st, op, x, y):
        if op == "sub" and isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.r is y.r:
                r = x.r
                if r is None or r.S is None:
                    return x.b - y.b
                d = s.iadd(x.i, z3.simplify(-I(y.i)) if isz(y.i) else -y.i)
                if isinstance(d, int):
                    return d * r.S + x.b - y.b
                return z3.simplify(d * r.S + (x.b - y.b))
            if y.r is None:
                return x
        if op == "add" and isinstance(x, Ptr) and isinstance(y, int):
            return s.ptr_add(st, x, y)
        raise EngineError("pointer arithmetic %s %r %r" % (op, x, y))

    def icmp(s, st, pred, x, y):
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            return T.fresh("opq", "bool")
        if isinstance(x, PtrIte):
            return T.ite(x.c, s.icmp(st, pred, x.a, y), s.icmp(st, pred, x.b, y))
        if isinstance(y, PtrIte):
            return T.ite(y.c, s.icmp(st, pred, x, y.a), s.icmp(st, pred, x, y.b))
        if isinstance(x, FuncPtr) or isinstance(y, FuncPtr):
            e = isinstance(x, FuncPtr) and isinstance(y, FuncPtr) and x.name == y.name
            return e if pred == "eq" else not e
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if not isinstance(x, Ptr) or not isinstance(y, Ptr):
                if x == 0 or y == 0:
                    x = x if isinstance(x, Ptr) else NULL
                    y = y if isinstance(y, Ptr) else NULL
                else:
                    raise EngineError("icmp ptr/int")
            if x.r is not y.r:
                if pred == "eq":
                    return False
                if pred == "ne":
                    return True
                raise EngineError("ordering of unrelated pointers")
            if x.r is None or x.r.S is None:
                a, b = x.b, y.b
            else:
                if same(x.b, y.b):
                    a, b = x.i, y.i
                elif pred in ("eq", "ne") and not isz(x.b) and not isz(y.b):
                    return pred == "ne"
                else:
                    a = T.I(x.i) * x.r.S + x.b
                    b = T.I(y.i) * y.r.S + y.b
            x, y = a, b
            pred = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(pred, pred)
        if isinstance(x, z3.BitVecRef) or isinstance(y, z3.BitVecRef):
            w = x.size() if isinstance(x, z3.BitVecRef) else y.size()
            a, b = T.bv(x, w), T.bv(y, w)
            return simp({'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b,
                         'sgt': lambda: a > b, 'sge': lambda: a >= b, 'ult': lambda: z3.ULT(a, b),
                         'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[pred]())
        if isinstance(x, (bool, z3.BoolRef)) or isinstance(y, (bool, z3.BoolRef)):
            e = T.eq(x if isinstance(x, (bool, z3.BoolRef)) else bool(x), y if isinstance(y, (bool, z3.BoolRef)) else bool(y))
            if pred == "eq":
                return e
            if pred == "ne":
                return T.not_(e)
            x, y = I(x), I(y)
        x = s.resolve_int(st, x); y = s.resolve_int(st, y)
        if pred == "eq":
            # if(b,1,0) == 0  -> not b
            return simp_bool(T.eq(x, y))
        if pred == "ne":
            return T.not_(simp_bool(T.eq(x, y)))
        op = {"slt": "lt", "sle": "le", "sgt": "gt", "sge": "ge", "ult": "lt", "ule": "le", "ugt": "gt", "uge": "ge"}[pred]
        return T.cmp(op, x, y)

    def fcmp(s, st, pred, x, y):
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            return T.fresh("opq", "bool")
        if pred in ("ord", "true"):
            return True
        if pred in ("uno", "false"):
            return False
        p = pred[1:]
        if p == "eq":
            if isz(x) and isz(y) and x.eq(y):
                return True
            return T.eq(x, y) if isz(x) or isz(y) else x == y
        if p == "ne":
            if isz(x) and isz(y) and x.eq(y):
                return False
            return T.not_(T.eq(x, y)) if isz(x) or isz(y) else x != y
        return T.cmp(p, x, y)

    def cast(s, st, i):
        op = i.op
        v = s.val(st, i.args[0], i.x)
        t = i.ty
        if isinstance(v, Opaque):
            return v
        if op in ("fpext", "fptrunc", "freeze", "bitcast", "inttoptr", "ptrtoint"):
            return v
        if op in ("sitofp", "uitofp"):
            if isinstance(v, (bool, z3.BoolRef)):
                return T.ite(v, Fraction(1), Fraction(0))
            v = s.resolve_int(st, v)
            if isinstance(v, int):
                return Fraction(v)
            if isinstance(v, z3.BitVecRef):
                return z3.ToReal(z3.BV2Int(v, op == "sitofp"))
            return z3.ToReal(v)
        if op in ("fptosi", "fptoui"):
            return T.trunc_(v)
        if op == "trunc":
            if isinstance(v, z3.BitVecRef):
                return z3.Extract(t.n - 1, 0, v) if t.n > 1 else simp(z3.Extract(0, 0, v) == 1)
            if t.n == 1:
                if isinstance(v, bool) or isinstance(v, z3.BoolRef):
                    return v
                if isinstance(v, int):
                    return bool(v & 1)
                c = as01(v)
                return c if c is not None else v != 0
            if isinstance(v, int) and not isinstance(v, bool):
                M = 1 << t.n
                v &= M - 1
                if v >= M >> 1:
                    v -= M
                return v
            return v
        if op in ("zext", "sext"):
            if isinstance(v, bool):
                return int(v) if op == "zext" else -int(v)
            if isinstance(v, z3.BoolRef):
                return z3.If(v, z3.IntVal(1 if op == "zext" else -1), z3.IntVal(0))
            if isinstance(v, z3.BitVecRef):
                n = t.n - v.size()
                return z3.ZeroExt(n, v) if op == "zext" else z3.SignExt(n, v)
            if op == "zext" and isinstance(v, int) and v < 0:
                return v + (1 << i.x.n)
            return v
        raise EngineError("cast " + op)

    # ------------------------------------------------------------------ calls
    def stub_for(s, name):
        if name in s.stub_cache:
            return s.stub_cache[name]
        d = s.dem(name)
        h = None
        for rx, handler in s.stubs:
            if rx.search(d):
                h = handler
                break
        if h is None and OPAQUE_FN.search(d):
            h = opaque_stub
        if h is None and d.startswith("ExceptionHandler::"):
            h = do_exception if "raise" in d else opaque_stub
        s.stub_cache[name] = h
        return h

    def call(s, st, i):
        """-> list of (state, value)"""
        callee = i.x
        if callee[0] == "reg":
            fp = s.val(st, callee, PTR)
        else:
            fp = s.constop(callee, PTR)
        if isinstance(fp, PtrIte):
            raise NeedSplit(fp.c)
        args = []
        for (t, o, bv) in i.args:
            v = s.val(st, o, t)
            if bv is not None:
                q = Ptr(Region("byval", ltype=bv, mod=s.cur_mod, kind="alloca"), 0, 0)
                s.memcpy(st, q, v, s.cur_mod.size(bv))
                v = q
            args.append(v)
        if isinstance(fp, Opaque):
            return [(st, s.opaque_ret(i.ty))]
        if not isinstance(fp, FuncPtr):
            raise EngineError("call through %r in %s" % (fp, s.dem(s.cur_fn[-1])))
        return s.call_name(st, fp.name, args, i)

    def opaque_ret(s, ty):
        if ty.k == "void":
            return None
        if ty.k == "ptr":
            return Opaque("ret")
        return s.undef(ty)

    def call_name(s, st, name, args, i):
        h = s.stub_for(name)
        if h is not None:
            s.stubbed[s.dem(name)] = s.stubbed.get(s.dem(name), 0) + 1
            r = h(s, st, args, i)
            return r
        b = BUILTINS.get(name)
        if b is not None:
            return b(s, st, args, i)
        if name.startswith("llvm."):
            return s.intrinsic(st, name, args, i)
        f = s.find(name)
        if f is None:
            raise EngineError("external function without contract: %s" % s.dem(name))
        s.inlined[s.dem(name)] = s.inlined.get(s.dem(name), 0) + 1
        if any(isinstance(a, PtrIte) for a in args):
            for a in args:
                if isinstance(a, PtrIte):
                    raise NeedSplit(a.c)
        outs = s.exec_func(st, f, args)
        return outs

    def intrinsic(s, st, name, args, i):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            s.memcpy(st, args[0], args[1], args[2])
            return [(st, None)]
        if name.startswith("llvm.memset"):
            p, v, n = args[0], args[1], s.resolve_int(st, args[2])
            if isinstance(p, Opaque):
                return [(st, None)]
            if isz(n):
                # zeroing a whole fresh array
                r = p.r
                if r.S is not None and same(p.i, 0) and v == 0:
                    for o, t in r.leafmap().items():
                        z = s.zero(t)
                        st.cells(r, True)[o] = ArrCell(lambda idx, z=z: z, ())
                    return [(st, None)]
                raise EngineError("memset symbolic size")
            if v != 0:
                raise EngineError("memset nonzero")
            r = p.r
            if not r.leafmap():
                # untyped heap object: remember that it is zero
                r.zeroed = True
                r.init = ZeroInit(s)
                return [(st, None)]
            for o, t in r.leafmap().items():
                if r.S is None:
                    if p.b <= o < p.b + n:
                        s.store(st, Ptr(r, 0, o), s.zero(t), t)
                else:
                    for e in range((n + r.S - 1) // r.S):
                        if p.b <= e * r.S + o < p.b + n:
                            s.store(st, Ptr(r, s.iadd(p.i, e), o), s.zero(t), t)
            return [(st, None)]
        if name.startswith("llvm.fabs"):
            return [(st, T.absr(args[0]))]
        if name.startswith("llvm.umul.with.overflow"):
            x, y = args
            v = x * y if isinstance(x, int) and isinstance(y, int) else z3.simplify(I(x) * I(y))
            return [(st, (v, False))]
        if name.startswith("llvm.uadd.with.overflow"):
            x, y = args
            v = x + y if isinstance(x, int) and isinstance(y, int) else z3.simplify(I(x) + I(y))
            return [(st, (v, False))]
        if name.startswith(("llvm.lifetime", "llvm.assume", "llvm.prefetch", "llvm.stackrestore", "llvm.dbg", "llvm.experimental.noalias")):
            return [(st, None)]
        if name.startswith("llvm.stacksave"):
            return [(st, NULL)]
        if name.startswith("llvm.is.fpclass"):
            # machine reals are finite here: infinities and NaNs excluded (stated assumption)
            m = int(args[1])
            x = args[0]
            zero, pos, neg = bool(m & 0x60), bool(m & 0x180), bool(m & 0x18)
            if zero and pos and neg:
                return [(st, True)]
            r = False
            if zero:
                r = T.or_(r, T.eq(x, 0))
            if pos:
                r = T.or_(r, T.lt(0, x))
            if neg:
                r = T.or_(r, T.lt(x, 0))
            return [(st, r)]
        if name.startswith("llvm.is.constant"):
            return [(st, False)]
        if name.startswith(("llvm.fmuladd", "llvm.fma")):
            return [(st, T.fadd(T.fmul(args[0], args[1]), args[2]))]
        if name.startswith("llvm.smax") or name.startswith("llvm.umax"):
            return [(st, T.ite(T.lt(args[0], args[1]), args[1], args[0]))]
        if name.startswith("llvm.smin") or name.startswith("llvm.umin"):
            return [(st, T.ite(T.lt(args[1], args[0]), args[1], args[0]))]
        if name.startswith("llvm.abs"):
            a = args[0]
            return [(st, abs(a) if isinstance(a, int) else z3.If(I(a) >= 0, I(a), -I(a)))]
        if name.startswith("llvm.trap"):
            s.side.append(("trap", st, s.cur_fn[-1]))
            return []
        raise EngineError("intrinsic " + name)

    # ------------------------------------------------------------------ functions
    def exec_func(s, st, f, args):
        if st.depth > 60:
            raise EngineError("recursion depth in " + s.dem(f.name))
        saved_env = st.env
        saved_mod = getattr(s, 'cur_mod', None)
        s.cur_mod = f.mod
        s.cur_fn.append(f.name)
        env = {}
        for (t, nm, bvt, sr), a in zip(f.params, args):
            env[nm] = a
        st.env = env
        st.depth += 1
        base = len(st.pc)
        try:
            evs = s.run(st, f, f.entry, None, None)
        finally:
            s.cur_mod = saved_mod
            s.cur_fn.pop()
        outs = []
        for e in evs:
            assert e.kind == "ret", e.kind
            e.st.env = dict(saved_env)
            e.st.depth -= 1
            outs.append((e.st, e.val))
        if s.merge_calls and len(outs) > 1 and len(s.cur_fn) > 0:
            if s.group_returns:
                # keep outcomes with different concrete return values apart
                groups = {}
                for o in outs:
                    groups.setdefault(o[1] if isinstance(o[1], (int, bool)) else None, []).append(o)
                outs = []
                for g in groups.values():
                    outs += s.merge_outs(g, base) if len(g) > 1 else g
            else:
                outs = s.merge_outs(outs, base)
        return outs

    def merge_outs(s, outs, base):
        """merge several outcomes into one when every difference can be expressed by if-then-else"""
        st0 = outs[0][0]
        for st, v in outs[1:]:
            if len(st.pc) < base or any(not same(a, b) for a, b in zip(st.pc[:base], st0.pc[:base])):
                return outs
            if st.trace != st0.trace or st.facts != st0.facts:
                return outs
        conds = []
        for st, v in outs:
            conds.append(T.and_(*[c for c in st.pc[base:]]))
        # conditions learned from run-time checks do not tell the outcomes apart: they stay in the path condition but not in the merged values
        full = conds
        conds = [T.and_(*[s.guards[c.get_id()][1] if T.isz(c) and c.get_id() in s.guards else c for c in st.pc[base:]]) for st, v in outs]
        # common prefix simplification is left to the solver
        res, rv = outs[-1][0].fork(), outs[-1][1]
        try:
            mem = {}
            rids = {}
            for st, v in outs:
                for rid in st.mem:
                    rids[rid] = 1
            for rid in rids:
                ds = [st.mem.get(rid) for st, v in outs]
                if all(d is ds[0] for d in ds):
                    mem[rid] = ds[0]
                    continue
                # regions allocated by only one outcome: keep as is
                present = [d for d in ds if d is not None]
                reg = s.region_by_id.get(rid)
                md = {}
                keys = {}
                for d in present:
                    for k in d:
                        keys[k] = 1
                for k in keys:
                    vals = [(d.get(k) if d is not None else None) for d in ds]
                    if all(same(x, vals[0]) for x in vals):
                        if vals[0] is not None:
                            md[k] = vals[0]
                        continue
                    if any(isinstance(x, ArrCell) for x in vals):
                        m2 = s.merge_arr(vals, conds, outs, reg, k)
                        if m2 is None:
                            return outs
                        md[k] = m2
                        continue
                    if any(x is None for x in vals):
                        if reg is None:
                            return outs
                        nv = [x for x in vals if x is not None][0]
                        if reg.kind == "alloca" and reg.id in s.local_dead:
                            continue
                        iv = reg.init.get(k)
                        if iv is None:
                            if reg.kind == "alloca" or reg.kind == "heap":
                                # uninitialised in some outcomes: those outcomes never read it meaningfully
                                vals = [x if x is not None else nv for x in vals]
                            else:
                                ty = DBL if (isinstance(nv, Fraction) or (isinstance(nv, z3.ArithRef) and nv.is_real())) else None
                                lm = reg.leafmap().get(k) or ty
                                if lm is None:
                                    return outs
                                iv = s.leaf_init(reg, k, lm)
                                vals = [x if x is not None else iv for x in vals]
                        else:
                            vals = [x if x is not None else iv for x in vals]
                    cur = vals[-1]
                    for c, x in list(zip(conds, vals))[-2::-1]:
                        cur = s.vite(c, x, cur)
                        if isinstance(cur, PtrIte):
                            return outs
                    md[k] = cur
                mem[rid] = md
            cur = rv
            for c, (st, v) in list(zip(conds, outs))[-2::-1]:
                if v is None:
                    continue
                cur = s.vite(c, v, cur)
                if isinstance(cur, PtrIte):
                    return outs
            rv = cur
        except (TypeError, z3.Z3Exception):
            return outs
        res.mem = mem
        res.own = set()
        res.pc = list(st0.pc[:base])
        o = simp_bool(T.or_(*full))
        if T.isz(o):
            og = simp_bool(T.or_(*conds))
            if not (T.isz(og) and og.eq(o)):
                s.guards[o.get_id()] = (o, og)
        res.assume(o)
        k0 = outs[0][0].known
        res.known = {k: v for k, v in k0.items() if all(st.known.get(k, (None,))[0] == v[0] for st, _ in outs)}
        g = dict(outs[0][0].ghost)
        for st, _ in outs[1:]:
            for k in list(g):
                if k not in st.ghost or not same(st.ghost[k], g[k]):
                    return outs
            if len(st.ghost) != len(g):
                return outs
        res.ghost = g
        res.env = outs[0][0].env
        return [(res, rv)]

    def merge_arr(s, vals, conds, outs, reg, off):
        """array cells: all share a base and a common prefix of writes"""
        cells = [v if v is not None else ArrCell(None, ()) for v in vals]
        if any(not isinstance(c, ArrCell) for c in cells):
            return None
        b0 = cells[0].base
        if any(c.base is not b0 and c.base != b0 for c in cells):
            return None
        # writes at syntactically equal single index are merged when the other cells can be read there
        idxs = []
        pre = 0
        while all(len(c.writes) > pre for c in cells) and all(
                same(c.writes[pre][0], cells[0].writes[pre][0]) and same(c.writes[pre][1], cells[0].writes[pre][1]) for c in cells):
            pre += 1
        rest = [c.writes[pre:] for c in cells]
        idxs = []
        ty = None
        for w in rest:
            for (i, v) in w:
                if not any(same(i, x) for x in idxs):
                    idxs.append(i)
                ty = ty or reg.elemtypes.get(off)
        if len(idxs) > 8:
            return None
        ty = reg.leafmap().get(off) or ty
        if ty is None:
            return None
        # for every index written by some outcome: the final content of that location in each outcome
        new = []
        s.inspec += 1
        try:
            for ix in idxs:
                vs = [s.load(st, Ptr(reg, ix, off), ty) for st, _ in outs]
                cur = vs[-1]
                for c, x in list(zip(conds, vs))[-2::-1]:
                    cur = s.vite(c, x, cur)
                    if isinstance(cur, PtrIte):
                        return None
                new.append((ix, cur))
        finally:
            s.inspec -= 1
        return ArrCell(b0, cells[0].writes[:pre] + tuple(new))

    region_by_id = Region.by_id
    local_dead = set()

    # run blocks from `block` until: return; leaving loop context; back edge of loop context; join block `stop`
    def run(s, st, f, block, prev, lc, stop=None):
        """lc: None or (header, nodes). Returns events: ret / back / exit(info=(target,prev)) / join(info=prev)"""
        cfg = f.analyse()
        loops = cfg["loops"]
        out = []
        work = [(st, block, prev, 0, True)]
        while work:
            st, block, prev, ip, fresh_entry = work.pop()
            while True:
                if s.deadline and time.time() > s.deadline:
                    raise EngineError("execution time limit")
                if ip == 0 and fresh_entry:
                    if lc is not None and block not in lc[1]:
                        out.append(Outcome("exit", st, None, (block, prev)))
                        break
                    if lc is not None and block == lc[0] and prev is not None and prev in lc[1] and not (prev is lc):
                        # arriving at own header along a back edge
                        out.append(Outcome("back", st, None, prev))
                        break
                    if stop is not None and block == stop:
                        out.append(Outcome("join", st, None, prev))
                        break
                    if block in loops and not (lc is not None and block == lc[0]):
                        L = loops[block]
                        evs = s.exec_loop(st, f, block, prev, L)
                        for e in evs:
                            if e.kind == "ret":
                                out.append(e)
                            else:
                                tb, pb = e.info
                                work.append((e.st, tb, pb, 0, True))
                        break
                fresh_entry = True
                insts = f.blocks[block]
                # phis
                if ip == 0:
                    j = 0
                    news = []
                    while j < len(insts) and insts[j].op == "phi":
                        i = insts[j]
                        for v, lab in i.args:
                            if lab == prev:
                                news.append((i.dst, s.val(st, v, i.ty)))
                                break
                        else:
                            raise EngineError("phi from %s" % prev)
                        j += 1
                    for d, v in news:
                        st.env[d] = v
                    ip = j
                i = insts[ip]
                op = i.op
                try:
                    if op == "load":
                        st.env[i.dst] = s.load(st, s.val(st, i.args, PTR), i.ty)
                    elif op == "store":
                        s.store(st, s.val(st, i.args[1], PTR), s.val(st, i.args[0], i.ty), i.ty)
                    elif op == "gep":
                        st.env[i.dst] = s.gep(st, s.val(st, i.args, PTR), i.ty, [(t, s.val(st, o, t)) for t, o in i.x])
                    elif op == "alloca":
                        p = s.alloca(st, i, f.name)
                        s.region_by_id[p.r.id] = p.r
                        st.env[i.dst] = p
                    elif op == "br":
                        if i.args is None:
                            prev = block
                            block = i.x[0]
                            ip = 0
                            continue
                        c = s.val(st, i.args, INT(1))
                        nxt = s.branch(st, f, block, c, i.x, lc)
                        if len(nxt) == 1:
                            st, t = nxt[0]
                            prev = block
                            block = t
                            ip = 0
                            continue
                        if not nxt:
                            break
                        if s.merge_joins:
                            r = s.try_join(f, block, nxt, lc, stop, out, work)
                            if r:
                                break
                        for (st2, t) in nxt[1:]:
                            work.append((st2, t, block, 0, True))
                            s.count_path()
                        st, t = nxt[0]
                        prev = block
                        block = t
                        ip = 0
                        continue
                    elif op == "switch":
                        v = s.resolve_int(st, s.val(st, i.args, i.ty))
                        dflt, cases = i.x
                        if isinstance(v, int):
                            t = dflt
                            for cv, lab in cases:
                                if cv == v:
                                    t = lab
                            prev = block; block = t; ip = 0
                            continue
                        nots = []
                        for cv, lab in cases:
                            c = simp_bool(T.eq(v, cv))
                            nots.append(T.not_(c))
                            if c is False:
                                continue
                            st2 = st.fork()
                            st2.assume(c)
                            if s.feasible(st2):
                                work.append((st2, lab, block, 0, True))
                                s.count_path()
                        st.assume(T.and_(*nots))
                        if not s.feasible(st):
                            break
                        prev = block; block = dflt; ip = 0
                        continue
                    elif op == "ret":
                        v = None if i.args is None else s.val(st, i.args, i.ty)
                        out.append(Outcome("ret", st, v))
                        break
                    elif op == "call":
                        rs = s.call(st, i)
                        if not rs:
                            break
                        for (st2, v) in rs[1:]:
                            if i.dst is not None:
                                st2.env[i.dst] = v
                            work.append((st2, block, prev, ip + 1, True))
                            s.count_path()
                        st, v = rs[0]
                        if i.dst is not None:
                            st.env[i.dst] = v
                    elif op == "icmp":
                        st.env[i.dst] = s.icmp(st, i.x, s.val(st, i.args[0], i.ty), s.val(st, i.args[1], i.ty))
                    elif op == "fcmp":
                        st.env[i.dst] = s.fcmp(st, i.x, s.val(st, i.args[0], i.ty), s.val(st, i.args[1], i.ty))
                    elif op == "fneg":
                        v = s.val(st, i.args[0], i.ty)
                        st.env[i.dst] = v if isinstance(v, Opaque) else T.fneg(v)
                    elif op in CASTS:
                        st.env[i.dst] = s.cast(st, i)
                    elif op in BINOPS:
                        st.env[i.dst] = s.binop(st, i)
                    elif op == "select":
                        c, a, b = i.args
                        c = s.val(st, c, INT(1))
                        st.env[i.dst] = s.vite(c, s.val(st, a, i.ty), s.val(st, b, i.ty))
                    elif op == "extractvalue":
                        v = s.val(st, i.args[0], i.ty)
                        for k in i.x:
                            v = v[k] if not isinstance(v, Opaque) else v
                        st.env[i.dst] = v
                    elif op == "insertvalue":
                        v = s.val(st, i.args[0], i.ty)
                        e = s.val(st, i.args[1], None)
                        st.env[i.dst] = ins_tuple(v, i.x, e)
                    elif op == "unreachable":
                        s.side.append(("unreachable", st, f.name))
                        break
                    elif op == "nop":
                        pass
                    else:
                        raise EngineError("instruction %s %s" % (op, i.x))
                except NeedSplit as ns:
                    for st2 in s.split(st, ns):
                        work.append((st2, block, prev, ip, False))
                        s.count_path()
                    break
                ip += 1
        return out

    def count_path(s):
        s.npaths += 1
        if s.npaths > s.max_paths:
            raise EngineError("too many paths (%d)" % s.npaths)

    def split(s, st, ns):
        t = ns.term
        if isinstance(t, z3.BoolRef):
            out = []
            for c in (t, T.not_(t)):
                st2 = st.fork()
                st2.assume(c)
                if s.feasible(st2):
                    s.resolve_ptrs(st2, t, c is t)
                    out.append(st2)
            return out
        out = []
        cur = st
        n = 0
        so = z3.Solver()
        so.set('timeout', 1000)
        so.add(*[p for p in st.pc if s._int_only(p)])
        vals = []
        while True:
            r = so.check()
            if r == z3.unsat:
                break
            if r != z3.sat:
                raise EngineError("case split undecided")
            v = so.model().eval(t, model_completion=True).as_long()
            vals.append(v)
            if ns.hi is not None and not (0 <= v < ns.hi):
                s.obls.append(("array index in range", st.fork(), z3.And(t >= 0, t < ns.hi), s.cur_fn[-1]))
                so.add(t >= 0, t < ns.hi)
                vals.pop()
                continue
            so.add(t != v)
            if len(vals) > 40:
                raise EngineError("case split too wide in %s: %s" % (s.dem(s.cur_fn[-1]), t))
        for v in sorted(vals):
            st2 = st.fork()
            st2.known[t.get_id()] = (v, t)
            st2.assume(simp_bool(t == v))
            if s.feasible(st2):
                out.append(st2)
        return out

    def resolve_ptrs(s, st, c, val):
        """replace PtrIte on condition c by the chosen side everywhere in env/memory"""
        def fix(v):
            if isinstance(v, PtrIte):
                if v.c.eq(c):
                    return fix(v.a if val else v.b)
                return PtrIte(v.c, fix(v.a), fix(v.b))
            return v
        for k, v in list(st.env.items()):
            if isinstance(v, PtrIte):
                st.env[k] = fix(v)
        for rid, d in list(st.mem.items()):
            for k, v in list(d.items()):
                if isinstance(v, PtrIte):
                    if rid not in st.own:
                        d = st.mem[rid] = dict(d)
                        st.own.add(rid)
                    d[k] = fix(v)

    def is_assert_block(s, f, t):
        k = (f.name, t)
        r = s.assert_blocks.get(k)
        if r is None:
            bl = f.blocks[t]
            r = s.assert_blocks[k] = any(x.op == "call" and "__assert_fail" in str(x.x) + str(x.args) for x in bl)
        return r

    def branch(s, st, f, block, c, targets, lc):
        a, b = targets
        if not isinstance(c, bool):
            if isinstance(c, Opaque):
                c = T.fresh("opq", "bool")
            c = simp_bool(c)
        if isinstance(c, int) and not isinstance(c, bool):
            c = bool(c)
        if isinstance(c, bool):
            return [(st, a if c else b)]
        if a == b:
            return [(st, a)]
        if s.assert_mode == "learn":
            # the run-time check is assumed to pass (stated in the report); what it says is kept as knowledge, not as a branch
            for x, y, k in ((a, b, c), (b, a, T.not_(c))):
                if s.is_assert_block(f, y):
                    k = simp_bool(k)
                    st.assume(k)
                    if T.isz(k):
                        s.guards[k.get_id()] = (k, True)
                    return [(st, x)]
        nc = T.not_(c)
        fa = s.feasible(st, c)
        fb = s.feasible(st, nc) if fa else True
        if fa and not fb:
            st.assume(c)
            return [(st, a)]
        if fb and not fa:
            st.assume(nc)
            return [(st, b)]
        # undecided
        if lc is not None and lc[2] == 'probe':
            outside = [t for t in (a, b) if t not in lc[1]]
            latch_exit = (block in lc[3]) and (a == lc[0] or b == lc[0] or bool(outside))
            if (block == lc[0] and outside) or (latch_exit and outside) or (outside and lc[4] is False and not s.goes_dead(f, outside)):
                raise NeedInv(lc[0])
        st2 = st.fork()
        st.assume(c)
        st2.assume(nc)
        return [(st, a), (st2, b)]

    def goes_dead(s, f, blocks):
        return all(f.blocks[b][-1].op == "unreachable" for b in blocks)

    def try_join(s, f, block, nxt, lc, stop, out, work):
        """execute both sides of a branch to the immediate post-dominator and merge there"""
        cfg = f.analyse()
        j = cfg["ipdom"].get(block)
        if j is None or j == "$exit":
            return False
        if lc is not None and (j not in lc[1] or j == lc[0]):
            return False
        if stop is not None and j == stop:
            return False
        base = len(nxt[0][0].pc) - 1
        joined = []
        for st, t in nxt:
            for e in s.run(st, f, t, block, lc, stop=j):
                if e.kind == "join":
                    joined.append((e.st, e.info))
                else:
                    out.append(e)
        if not joined:
            return True
        # phis at the join depend on predecessor: evaluate them into env now
        insts = f.blocks[j]
        outs = []
        for st, pv in joined:
            for i in insts:
                if i.op != "phi":
                    break
                for v, lab in i.args:
                    if lab == pv:
                        st.ghost[("phi", i.dst)] = s.val(st, v, i.ty)
            outs.append((st, None))
        phis = [i.dst for i in insts if i.op == "phi"]
        if len(outs) > 1:
            vals = [tuple(st.ghost.pop(("phi", d)) for d in phis) for st, _ in outs]
            m = s.merge_outs([(st, v if phis else None) for (st, _), v in zip(outs, vals)], base)
        else:
            m = [(outs[0][0], tuple(outs[0][0].ghost.pop(("phi", d)) for d in phis))]
        ipn = len(phis)
        for (st, v) in m:
            if phis:
                for d, x in zip(phis, v):
                    st.env[d] = x
            work.append((st, j, joined[0][1], ipn, False) if ipn else (st, j, joined[0][1], 0, False))
        return True

    # ------------------------------------------------------------------ loops
    def exec_loop(s, st, f, header, prev, L):
        nodes, latches = L["nodes"], L["latches"]
        mode = None
        key = (f.name, header)
        ordinal = sorted(f.analyse()["loops"], key=lambda h: f.order.index(h)).index(header)
        for rx, o, m in s.loop_modes:
            if rx.search(s.dem(f.name)) and (o is None or o == ordinal):
                mode = m
        header_exits = any(t not in nodes for t in f.succs(header))
        outs = []
        if mode != 'inv':
            fork_ok = mode == 'unroll' or s.unroll_bound is not None
            saved = st if fork_ok else st.fork()
            nside, nobl = len(s.side), len(s.obls)
            np0 = s.npaths
            seen0 = dict(s.loop_seen)
            log0 = len(s.loops_log)
            try:
                # a loop whose header has no exit test (do/while, while(true)) is symbolic as soon as an exit is undecided
                has_hdr = header_exits or any(any(t not in nodes for t in f.succs(l)) for l in latches)
                lc = (header, nodes, 'fork' if fork_ok else 'probe', latches, has_hdr)
                cur = [(st, prev)]
                it = 0
                while cur:
                    it += 1
                    if s.unroll_bound is not None and mode != 'unroll' and it > s.unroll_bound + 1:
                        for c, _ in cur:
                            s.bounded_cut += 1
                        break
                    if it > s.maxiter:
                        raise EngineError("loop iteration limit in " + s.dem(f.name))
                    nxt = []
                    for st1, pv in cur:
                        for e in s.run_hdr(st1, f, header, pv, lc):
                            if e.kind == "back":
                                nxt.append((e.st, e.info))
                            else:
                                outs.append(e)
                    cur = nxt
                return outs
            except NeedInv as n:
                if n.header != header:
                    raise
                st = saved
                del s.side[nside:]
                del s.obls[nobl:]
                s.npaths = np0
                s.loop_seen = seen0
                del s.loops_log[log0:]
                outs = []
        return s.loop_inv(st, f, header, prev, L, key)

    def run_hdr(s, st, f, header, prev, lc):
        return s.run(st, f, header, HdrPrev(prev), lc)

    def diff_cells(s, a, b):
        """locations (rid, off) whose contents differ between state a (head) and b (back edge)"""
        out = []
        for rid, db in b.mem.items():
            da = a.mem.get(rid)
            if da is db:
                continue
            for k, v in db.items():
                va = da.get(k) if da is not None else None
                if va is None or not same(va, v):
                    out.append((rid, k))
        return out

    def havoc(s, st, rid, off, tag):
        r = s.region_by_id.get(rid)
        d = st.cells(r, True)
        old = d.get(off)
        if r.S is not None:
            d[off] = ArrCell("h%s" % tag, ())
            return
        v = old if old is not None else r.init.get(off)
        ty = r.leafmap().get(off)
        nm = "%s.%s~%s" % (r.name, s.leaf_name(r, off), tag)
        if isinstance(v, (Fraction,)) or (isinstance(v, z3.ArithRef) and v.is_real()) or (v is None and ty is not None and ty.k in ("double", "float")):
            d[off] = T.fresh(nm)
        elif isinstance(v, (bool, z3.BoolRef)):
            d[off] = T.fresh(nm, 'bool')
        elif isinstance(v, z3.BitVecRef):
            T._counter[0] += 1
            d[off] = z3.BitVec("%s!%d" % (nm, T._counter[0]), v.size())
        elif T.isintv(v) or (v is None and ty is not None and ty.k == "i"):
            if ty is not None and ty.k == "i" and ty.n == 8:
                b = T.fresh(nm, 'bool')
                d[off] = z3.If(b, z3.IntVal(1), z3.IntVal(0))
            else:
                d[off] = T.fresh(nm, 'int')
        elif isinstance(v, Ptr) or (v is None and ty is not None and ty.k == "ptr"):
            if r.kind == "alloca" and (v is None):
                d.pop(off, None)
                return
            if isinstance(v, Ptr) and v.r is not None and v.r.S is not None:
                d[off] = Ptr(v.r, T.fresh(nm, 'int'), v.b)
            elif isinstance(v, Ptr):
                # pointer re-assigned in the loop (body temporaries): unknown until assigned again
                d[off] = BadPtr("havocked pointer %s" % nm)
            else:
                d[off] = BadPtr("havocked pointer %s" % nm)
        elif isinstance(v, Opaque) or v is None:
            d[off] = Opaque("havoc")
        elif isinstance(v, tuple):
            d[off] = Opaque("havoc")
        else:
            raise EngineError("havoc %r" % (v,))

    def loop_inv(s, st, f, header, prev, L, key):
        nodes, latches = L["nodes"], L["latches"]
        if key in s.loop_seen:
            prov = s.loop_seen[key]
        else:
            n = len(s.loop_seen)
            prov = s.pick_inv(n, f, header, st)
            s.loop_seen[key] = prov
            s.loops_log.append("%s loop #%d (%s)" % (s.dem(f.name), n, "contract invariant" if prov else "automatic invariants only"))
        entry = st
        lc = (header, nodes, 'fork', latches, True)
        M = []
        Mset = set()
        st0 = entry.fork()
        nside, nobl = len(s.side), len(s.obls)
        log0 = len(s.loops_log)
        rounds = 0
        K = None
        s_quiet = getattr(s, 'quiet', 0)
        while True:
            rounds += 1
            if rounds > 12:
                raise EngineError("modifies fixpoint")
            T._counter[0] += 1
            tag = "L%d" % T._counter[0]
            head = entry.fork()
            for rid, off in M:
                s.havoc(head, rid, off, tag)
            K = T.fresh("K", "int")
            head.assume(K >= 0)
            ctx = LoopCtx(s, entry, head, K, f, header)
            # candidate automatic invariants found in the previous round
            s.quiet = 1
            run_st = head.fork()
            s.kstack.append(K)
            evs = s.run_hdr(run_st, f, header, prev, lc)
            s.kstack.pop()
            s.quiet = s_quiet
            del s.side[nside:]
            del s.obls[nobl:]
            new = []
            for e in evs:
                if e.kind == "back":
                    for loc in s.diff_cells(head, e.st):
                        if loc not in Mset and loc[0] in s.region_by_id and s.known_before(entry, loc[0]):
                            new.append(loc)
                            Mset.add(loc)
            if not new:
                break
            M += new
        # automatic induction facts from the last dry run
        backs = [e for e in evs if e.kind == "back"]
        auto = []
        ind = {}
        if s.auto_inv and backs:
            for rid, off in M:
                r = s.region_by_id[rid]
                if r.S is not None:
                    continue
                h = head.mem[rid].get(off)
                e0 = entry.mem.get(rid, {}).get(off)
                if e0 is None:
                    e0 = r.init.get(off)
                if e0 is None or h is None:
                    continue
                if T.isintv(h) and T.isintv(e0):
                    ds = []
                    for e in backs:
                        d = simp(I(e.st.mem[rid][off]) - I(h)) if T.isintv(e.st.mem[rid].get(off)) else None
                        ds.append(d)
                    if ds and all(isinstance(d, int) for d in ds):
                        if len(set(ds)) == 1:
                            ind[(rid, off)] = ("step", ds[0])
                        elif all(d >= 0 for d in ds):
                            ind[(rid, off)] = ("mono", 1, min(ds), max(ds))
                        elif all(d <= 0 for d in ds):
                            ind[(rid, off)] = ("mono", -1, min(ds), max(ds))
                elif isinstance(h, Ptr) and isinstance(e0, Ptr) and h.r is e0.r and h.r is not None and h.r.S is not None:
                    ds = []
                    for e in backs:
                        q = e.st.mem[rid].get(off)
                        if isinstance(q, Ptr) and q.r is h.r and same(q.b, h.b):
                            ds.append(simp(I(q.i) - I(h.i)))
                        else:
                            ds.append(None)
                    if all(isinstance(d, int) for d in ds) and len(set(ds)) == 1:
                        ind[(rid, off)] = ("pstep", ds[0])
        # ---- the verified execution
        T._counter[0] += 1
        tag = "L%d" % T._counter[0]
        head = entry.fork()
        K = T.fresh("K", "int")
        for rid, off in M:
            s.havoc(head, rid, off, tag)
        head.assume(K >= 0)
        for (rid, off), spec in ind.items():
            r = s.region_by_id[rid]
            e0 = entry.mem.get(rid, {}).get(off)
            if e0 is None:
                e0 = r.init.get(off)
            d = head.cells(r, True)
            if spec[0] == "step":
                d[off] = z3.simplify(I(e0) + spec[1] * K)
            elif spec[0] == "pstep":
                d[off] = Ptr(e0.r, z3.simplify(I(e0.i) + spec[1] * K), e0.b)
            elif spec[0] == "mono":
                v = d[off]
                head.assume(I(v) >= I(e0) + spec[2] * K)
                head.assume(I(v) <= I(e0) + spec[3] * K)
        ctx = LoopCtx(s, entry, head.fork(), K, f, header)   # a snapshot: head itself is executed further below
        ctx.M = M
        ctx.ind = ind
        entry_ctx = LoopCtx(s, entry, entry, z3.IntVal(0), f, header)
        entry_ctx.M = M
        entry_ctx.ind = ind
        name = "%s:loop@%s" % (s.short(f.name), header)
        if prov:
            for lab, fm in s.call_prov(prov, entry_ctx, 'check'):
                s.add_obl("%s:inv-entry:%s" % (name, lab), entry, fm)
            for lab, fm in s.call_prov(prov, ctx, 'assume'):
                s.assume_any(head, fm)
        # automatic bound: header test v < B with v = e0 + K, B unmodified; proven like any other invariant
        head0 = head.fork()
        s.kstack.append(K)
        evs = s.run_hdr(head, f, header, prev, lc)
        s.kstack.pop()
        outs = []
        nb = 0
        bnd = s.auto_bound(f, header, head0, prev, K, ind, entry)
        for e in evs:
            if e.kind == "back":
                nb += 1
                if prov:
                    bctx = LoopCtx(s, entry, e.st, z3.simplify(K + 1), f, header)
                    bctx.M = M
                    bctx.ind = ind
                    bctx.prev_iter = ctx
                    for lab, fm in s.call_prov(prov, bctx, 'check'):
                        s.add_obl("%s:inv-preserved:%s" % (name, lab), e.st, fm)
            else:
                if bnd is not None:
                    e.st.assume(bnd)
                outs.append(e)
        return outs

    def known_before(s, entry, rid):
        """locations that exist when the loop is entered (everything else is local to an iteration)"""
        r = s.region_by_id[rid]
        if rid in entry.mem:
            return True
        if r.kind in ("alloca", "heap"):
            # allocated (in the entry block) but never written yet: body temporary, or allocated inside the body
            return r in [p.r for p in entry.env.values() if isinstance(p, Ptr)] or False
        return True

    def auto_bound(s, f, header, head, prev, K, ind, entry):
        """if the header's exit test is v < B / v != B / v <= B for an induction variable v with step 1 and loop-invariant
        B, then 'K <= max(0, B - v0)' holds at the head on every iteration (induction: the body runs only if v < B)."""
        insts = f.blocks[header]
        br = insts[-1]
        if br.op != "br" or br.args is None or br.args[0] != "reg":
            return None
        cmpi = [i for i in insts if i.dst == br.args[1] and i.op == "icmp"]
        if not cmpi:
            return None
        cmpi = cmpi[0]
        in_t = br.x[0]
        nodes = f.analyse()["loops"][header]["nodes"]
        if not (in_t in nodes and br.x[1] not in nodes):
            return None
        # evaluate the header in the head state
        try:
            evst = head.fork()
            for i in insts:
                if i.op == "phi":
                    return None
                if i is cmpi:
                    break
                if i.op == "load":
                    evst.env[i.dst] = s.load(evst, s.val(evst, i.args, PTR), i.ty)
                elif i.op == "gep":
                    evst.env[i.dst] = s.gep(evst, s.val(evst, i.args, PTR), i.ty, [(t, s.val(evst, o, t)) for t, o in i.x])
                elif i.op in CASTS:
                    evst.env[i.dst] = s.cast(evst, i)
                elif i.op in BINOPS:
                    evst.env[i.dst] = s.binop(evst, i)
                elif i.op == "call":
                    rs = s.call(evst, i)
                    if len(rs) != 1:
                        return None
                    evst, v = rs[0]
                    evst.env[i.dst] = v
                else:
                    return None
            x = s.val(evst, cmpi.args[0], cmpi.ty)
            y = s.val(evst, cmpi.args[1], cmpi.ty)
        except (NeedSplit, EngineError, KeyError):
            return None
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r and x.r is not None:
            x, y = x.i, y.i
        if not (T.isintv(x) and T.isintv(y)):
            return None

        def haskey(t, k):
            return isz(t) and k.get_id() in T.consts_in([t])
        hav = set()
        if haskey(x, K) and not s.mentions_havoc(y, head, entry, K):
            d = simp(I(x) - K)
            if s.mentions_havoc(d, head, entry, K):
                return None
            if cmpi.x in ("slt", "ult"):
                return z3.Or(K == 0, I(x) <= I(y))
            if cmpi.x in ("sle", "ule"):
                return z3.Or(K == 0, I(x) <= I(y) + 1)
            if cmpi.x == "ne":
                # runs until equality; sound only if v0 <= B
                return z3.Implies(z3.simplify(z3.substitute(I(x), (K, z3.IntVal(0)))) <= I(y), I(x) <= I(y))
        return None

    def mentions_havoc(s, t, head, entry, K):
        if not isz(t):
            return False
        for c in T.consts_in([t]).values():
            n = c.decl().name()
            if c.eq(K) or "~L" in n:
                return True
            d = T.def_of(c)
            if d is not None:
                if d[1] == 'read' and ":h" in str(d[2][0]):
                    return True
                if any(s.mentions_havoc(a, head, entry, K) for a in d[2] if isz(a)):
                    return True
        return False

    def assume_any(s, st, fm):
        if isinstance(fm, tuple):   # ('forall', leafpred, fn)
            st.facts = st.facts + ((fm[1], fm[2], T.uid()),)
        else:
            st.assume(simp_bool(fm))

    def call_prov(s, prov, ctx, mode):
        s.inspec += 1
        try:
            return list(prov(ctx, mode))
        finally:
            s.inspec -= 1

    def pick_inv(s, n, f, header, st):
        if n < len(s.loop_invs):
            return s.loop_invs[n]
        return None

    def short(s, name):
        d = s.dem(name)
        d = d.split("(")[0]
        return d.split("::")[-1]

    def add_obl(s, name, st, fm):
        if getattr(s, 'quiet', 0):
            return
        if isinstance(fm, tuple):
            # forall goal: skolemise
            k = T.fresh("sk", "int")
            s.inspec += 1
            f2 = fm[2](k)
            s.inspec -= 1
            fm = T.and_(*f2) if isinstance(f2, list) else f2
        s.obls.append((name, st.fork(), fm, s.cur_fn[-1] if s.cur_fn else ""))


class ZeroInit(dict):
    def __init__(s, ex):
        super().__init__()
        s.zero_ex = ex

    def get(s, k, d=None):
        if k in s:
            return s[k]
        return d


class HdrPrev(str):
    """predecessor label wrapper: a first entry to the header is not a back edge"""
    def __new__(cls, p):
        o = str.__new__(cls, p if p is not None else "")
        return o

    def __hash__(s):
        return hash(("hdr", str(s)))

    def __eq__(s, o):
        if isinstance(o, HdrPrev):
            return str.__eq__(s, o)
        return str.__eq__(s, o)


def as01(v):
    """the condition under which a 0/1-valued integer term is 1 (None: not recognisably 0/1)"""
    if isinstance(v, int):
        return bool(v) if v in (0, 1) else None
    if not isz(v):
        return None
    n = conc_num(v)
    if n is not None:
        return bool(n) if n in (0, 1) else None
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = v.children()
        a, b = as01(a), as01(b)
        if a is None or b is None:
            return None
        if a is True and b is False:
            return c
        if a is False and b is True:
            return T.not_(c)
        return T.or_(T.and_(c, a), T.and_(T.not_(c), b))
    return None


def ins_tuple(t, ix, v):
    if isinstance(t, Opaque):
        return t
    l = list(t)
    if len(ix) == 1:
        l[ix[0]] = v
    else:
        l[ix[0]] = ins_tuple(l[ix[0]], ix[1:], v)
    return tuple(l)


def simp_bool(c):
    if isinstance(c, bool) or not isz(c):
        return c
    d = z3.simplify(c)
    if z3.is_true(d):
        return True
    if z3.is_false(d):
        return False
    return d


CASTS = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast", "freeze"}
BINOPS = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv"}


# ---------------------------------------------------------------------- builtins (trusted semantics of libm / libc)
def _ret(fn):
    def h(s, st, args, i):
        if any(isinstance(a, Opaque) for a in args):
            return [(st, s.opaque_ret(i.ty))]
        return [(st, fn(s, st, *args))]
    return h


def do_pow(s, st, x, y):
    if isinstance(y, int):
        y = Fraction(y)
    y = y if pyc(y) else (conc_num(z3.simplify(R(y))) if conc_num(z3.simplify(R(y))) is not None else y)
    if pyc(y):
        y = Fraction(y)
        if y.denominator == 1 and abs(y) <= 12:
            return T.fpowi(x, int(y))
        if y == Fraction(1, 2):
            return T.sqrt(x)
        if y == Fraction(-1, 2):
            return T.inv(T.sqrt(x))
        if y.denominator in (3, 4) and abs(y.numerator) <= 12 and not pyc(x):
            return T.fpowi(T.root(x, y.denominator), y.numerator)
        if y.denominator == 2 and abs(y.numerator) < 12 and not pyc(x):
            return T.fpowi(T.sqrt(x), y.numerator)
    if pyc(x) and Fraction(x) == 2:
        # 2^n for an integer-valued exponent
        ys = as_int(z3.simplify(R(y)))
        if ys is not None:
            return z3.ToReal(T.uf("pow2", z3.simplify(ys), sort='int'))
    return T.uf("pow", R(x), R(y))


def as_int(y):
    """integer term equal to a real term built from integers, or None"""
    k = y.decl().kind() if z3.is_app(y) else None
    if k == z3.Z3_OP_TO_REAL:
        return y.children()[0]
    if z3.is_rational_value(y):
        return z3.IntVal(y.numerator_as_long()) if y.denominator_as_long() == 1 else None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        c = [as_int(x) for x in y.children()]
        if any(x is None for x in c):
            return None
        r = c[0]
        if k == z3.Z3_OP_UMINUS:
            return -r
        for x in c[1:]:
            r = r + x if k == z3.Z3_OP_ADD else r * x if k == z3.Z3_OP_MUL else r - x
        return r
    if k == z3.Z3_OP_ITE:
        a, b = as_int(y.children()[1]), as_int(y.children()[2])
        return None if a is None or b is None else z3.If(y.children()[0], a, b)
    return None


def pyc(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def _pow_ax(a, r):
    return [z3.Implies(a[0] > 0, r > 0), z3.Implies(a[1] == 0, r == 1), z3.Implies(a[1] == 1, r == a[0]),
            z3.Implies(z3.And(a[0] == 1), r == 1)]


T.UF_AX["pow"] = _pow_ax
T.UF_AX["exp"] = lambda a, r: [r > 0, z3.Implies(a[0] <= 0, r <= 1), z3.Implies(a[0] >= 0, r >= 1), z3.Implies(a[0] == 0, r == 1), r >= 1 + a[0]]
T.UF_AX["log"] = lambda a, r: [z3.Implies(a[0] >= 1, r >= 0), z3.Implies(z3.And(a[0] > 0, a[0] <= 1), r <= 0)]
T.UF_AX["sin"] = lambda a, r: [r <= 1, r >= -1]
T.UF_AX["cos"] = lambda a, r: [r <= 1, r >= -1]
T.UF_AX["pow2"] = lambda a, r: [z3.Implies(a[0] >= 0, r >= 1), z3.Implies(a[0] == 0, r == 1), z3.Implies(a[0] == 1, r == 2), z3.Implies(a[0] == 2, r == 4)]


def do_exp(s, st, x):
    if pyc(x) and x == 0:
        return Fraction(1)
    return T.uf("exp", R(x))


def do_new(s, st, args, i):
    n = s.resolve_int(st, args[0])
    r = Region("new%d" % next(Region._n), kind="heap", count=None)
    r.bytes = n
    if isz(n):
        co = s.coeffs(z3.simplify(I(n), som=True))
        if co and len(co) == 1 and co[0][1] is not None:
            r.pending_S = co[0][0]
            r.count = co[0][1]
    s.region_by_id[r.id] = r
    return [(st, Ptr(r, 0, 0))]


def opaque_stub(s, st, args, i):
    return [(st, s.opaque_ret(i.ty))]


def do_exception(s, st, args, i):
    s.side.append(("abort", st, s.cur_fn[-1]))
    return []


def do_assert(s, st, args, i):
    s.side.append(("assert", st, s.cur_fn[-1]))
    return []


def do_abort(s, st, args, i):
    s.side.append(("abort", st, s.cur_fn[-1]))
    return []


def do_floor(s, st, x):
    f = T.floor_(x)
    return Fraction(f) if isinstance(f, int) else z3.ToReal(f)


def do_ceil(s, st, x):
    f = T.floor_(T.fneg(x))
    return Fraction(-f) if isinstance(f, int) else -z3.ToReal(f)


def do_fmod(s, st, x, y):
    q = T.trunc_(T.fdiv(x, y))
    return T.fsub(x, T.fmul(Fraction(q) if isinstance(q, int) else z3.ToReal(q), y))


BUILTINS = {
    "sqrt": _ret(lambda s, st, x: T.sqrt(x)),
    "sqrtf": _ret(lambda s, st, x: T.sqrt(x)),
    "fabs": _ret(lambda s, st, x: T.absr(x)),
    "pow": _ret(do_pow), "powf": _ret(do_pow),
    "exp": _ret(do_exp),
    "log": _ret(lambda s, st, x: T.uf("log", R(x))),
    "log10": _ret(lambda s, st, x: T.uf("log10", R(x))),
    "sin": _ret(lambda s, st, x: T.uf("sin", R(x))),
    "cos": _ret(lambda s, st, x: T.uf("cos", R(x))),
    "tan": _ret(lambda s, st, x: T.uf("tan", R(x))),
    "tanh": _ret(lambda s, st, x: T.uf("tanh", R(x))),
    "atan": _ret(lambda s, st, x: T.uf("atan", R(x))),
    "atan2": _ret(lambda s, st, x, y: T.uf("atan2", R(x), R(y))),
    "acos": _ret(lambda s, st, x: T.uf("acos", R(x))),
    "asin": _ret(lambda s, st, x: T.uf("asin", R(x))),
    "cbrt": _ret(lambda s, st, x: T.root(x, 3)),
    "floor": _ret(do_floor), "ceil": _ret(do_ceil), "fmod": _ret(do_fmod),
    "abs": _ret(lambda s, st, x: abs(x) if isinstance(x, int) else z3.If(I(x) >= 0, I(x), -I(x))),
    "fmax": _ret(lambda s, st, x, y: T.maxr(x, y)), "fmin": _ret(lambda s, st, x, y: T.minr(x, y)),
    "_Znwm": do_new, "_Znam": do_new, "malloc": do_new,
    "_ZdlPv": lambda s, st, a, i: [(st, None)], "_ZdaPv": lambda s, st, a, i: [(st, None)],
    "_ZdlPvm": lambda s, st, a, i: [(st, None)], "_ZdaPvm": lambda s, st, a, i: [(st, None)],
    "free": lambda s, st, a, i: [(st, None)],
    "__assert_fail": do_assert, "abort": do_abort, "exit": do_abort, "_ZSt9terminatev": do_abort,
    "__cxa_guard_acquire": lambda s, st, a, i: [(st, 0)],
    "__cxa_guard_release": lambda s, st, a, i: [(st, None)],
    "__cxa_atexit": lambda s, st, a, i: [(st, 0)],
    "__cxa_pure_virtual": do_abort,
}
