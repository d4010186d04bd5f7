"""Term layer: mixed concrete (int / Fraction / bool) and z3 arithmetic, with *defined constants*.

Non-polynomial operations are not sent to the solver as such: each application is replaced by a fresh constant that is
cached per (operation, arguments) and whose defining axioms are added to every query in which it occurs:
   inv(y)    : y != 0 -> y*inv = 1                sqrt(x): x>=0 -> r>=0 and r*r = x
   root_n(x) : x>=0 -> r>=0 and r^n = x           floor(x): integer k with k <= x < k+1
   uf:f(..)  : axioms registered with the function (contract of an uninterpreted callee), plus congruence
   read      : element of an unmodified array at an index, plus congruence
All reals are mathematical (machine rounding is not modelled: listed assumption)."""
import z3
from fractions import Fraction

z3.set_param('auto_config', True)


def _fast_bindings():
    """read-only accessors of the z3 API without the per-call error query and debug assertions (they cannot fail on well-formed terms)"""
    m = z3.z3
    m.Z3_DEBUG = False
    for n in ("ast_kind", "app_num_args", "app_arg", "ast_id", "sort", "sort_kind", "app_decl", "decl_kind", "decl_name", "ast_hash"):
        n = "Z3_get_" + n
        if hasattr(m, n):
            setattr(m, n, getattr(m, n).__defaults__[0].f)
    for n in ("Z3_inc_ref", "Z3_dec_ref", "Z3_is_eq_ast", "Z3_to_app", "Z3_is_app", "Z3_is_algebraic_number", "Z3_is_finite_set_sort"):
        if hasattr(m, n):
            setattr(m, n, getattr(m, n).__defaults__[0].f)


try:
    _fast_bindings()
except (AttributeError, IndexError, TypeError):
    pass

DEFS = {}        # const ast id -> (const, kind, args)
_KEEP = []
_cache = {}
_counter = [0]
UF_AX = {}       # name -> fn(args, result) -> [axioms]
UF_INTERP = {}   # name -> python float function (for replay only)
CONST_DEF = {}   # named mathematical constants: name -> (z3 const, float)


def isz(x):
    return isinstance(x, z3.AstRef)


def fresh(name, sort='real'):
    _counter[0] += 1
    n = "%s!%d" % (name, _counter[0])
    if sort == 'real':
        return z3.Real(n)
    if sort == 'int':
        return z3.Int(n)
    if sort == 'bool':
        return z3.Bool(n)
    if sort.startswith('bv'):
        return z3.BitVec(n, int(sort[2:]))
    raise ValueError(sort)


def R(x):
    """to z3 real"""
    if isinstance(x, z3.ArithRef):
        return z3.ToReal(x) if x.is_int() else x
    if isinstance(x, bool):
        raise TypeError("bool as real")
    if isinstance(x, (int, Fraction)):
        x = Fraction(x)
        return z3.Q(x.numerator, x.denominator)
    if isinstance(x, float):
        return R(Fraction(repr(x)))
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    raise TypeError("R(%r)" % (x,))


def I(x):
    if isinstance(x, z3.ArithRef):
        return x
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    raise TypeError("I(%r)" % (x,))


def B(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def conc_num(t):
    """concrete python value of a z3 numeral, else None"""
    if isinstance(t, (int, Fraction, bool)):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return None


def simp(t):
    if not isz(t):
        return t
    t = z3.simplify(t)
    c = conc_num(t)
    return t if c is None else c


def pyconst(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


# ------------------------------------------------------------------ real arithmetic
def fadd(a, b):
    if pyconst(a) and pyconst(b):
        return Fraction(a) + Fraction(b)
    if pyconst(a) and a == 0:
        return b
    if pyconst(b) and b == 0:
        return a
    return R(a) + R(b)


def fneg(a):
    if pyconst(a):
        return -Fraction(a)
    return -R(a)


def fsub(a, b):
    if pyconst(a) and pyconst(b):
        return Fraction(a) - Fraction(b)
    if pyconst(b) and b == 0:
        return a
    if isz(a) and isz(b) and a.eq(b):
        return Fraction(0)
    return R(a) - R(b)


def fmul(a, b):
    if pyconst(a) and pyconst(b):
        return Fraction(a) * Fraction(b)
    for x, y in ((a, b), (b, a)):
        if pyconst(x):
            if x == 0:
                return Fraction(0)
            if x == 1:
                return y
    return R(a) * R(b)


def mkdef(kind, args, sort, hint):
    key = (kind, tuple(a.get_id() if isz(a) else a for a in args))
    c = _cache.get(key)
    if c is None:
        c = fresh(hint, sort)
        _cache[key] = c
        DEFS[c.get_id()] = (c, kind, tuple(args))
        _KEEP.append((c, args))
    return c


def def_of(t):
    if not isz(t):
        return None
    return DEFS.get(t.get_id())


def inv(b):
    if pyconst(b):
        if b == 0:
            return mkdef('inv', (R(0),), 'real', 'inv')
        return 1 / Fraction(b)
    s = z3.simplify(R(b))
    c = conc_num(s)
    if c is not None:
        return inv(c)
    d = def_of(s)
    if d and d[1] == 'inv':
        return d[2][0]
    if z3.is_mul(s):
        r = Fraction(1)
        for ch in s.children():
            n = conc_num(ch)
            r = fmul(r, inv(n if n is not None else ch))
        return r
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_POWER:
        base, e = s.children()
        n = conc_num(e)
        if n is not None and n.denominator == 1 and n > 0:
            return fpowi(inv(base), int(n))
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UMINUS:
        return fneg(inv(s.children()[0]))
    return mkdef('inv', (s,), 'real', 'inv')


def fdiv(a, b):
    if isz(a) and isz(b) and a.eq(b):
        # a/a: 1 whenever defined
        pass
    return fmul(a, inv(b))


def fpowi(a, n):
    if n == 0:
        return Fraction(1)
    if n < 0:
        return fpowi(inv(a), -n)
    r = a
    for _ in range(n - 1):
        r = fmul(r, a)
    return r


def sqrt(x):
    if pyconst(x):
        x = Fraction(x)
        import math
        if x >= 0:
            a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if a * a == x.numerator and b * b == x.denominator:
                return Fraction(a, b)
        s = R(x)
    else:
        s = z3.simplify(R(x), som=True)
        n = conc_num(s)
        if n is not None:
            return sqrt(n)
    return mkdef('sqrt', (s,), 'real', 'sqrt')


def root(x, n):
    if pyconst(x) and x in (0, 1):
        return Fraction(x)
    s = z3.simplify(R(x), som=True)
    return mkdef('root%d' % n, (s,), 'real', 'root')


def floor_(x):
    if pyconst(x):
        return Fraction(x).__floor__()
    s = z3.simplify(R(x), som=True)
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_TO_REAL:
        return s.children()[0]
    return mkdef('floor', (s,), 'int', 'floor')


def trunc_(x):
    """C double -> int conversion"""
    if pyconst(x):
        x = Fraction(x)
        return x.__floor__() if x >= 0 else -((-x).__floor__())
    s = z3.simplify(R(x), som=True)
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_TO_REAL:
        return s.children()[0]
    return z3.If(s >= 0, I(floor_(s)), -I(floor_(-s)))


def uf(name, *args, sort='real'):
    """application of an uninterpreted function"""
    a2 = []
    for a in args:
        if isz(a):
            a = z3.simplify(a, som=True) if isinstance(a, z3.ArithRef) else z3.simplify(a)
        elif pyconst(a):
            a = R(a) if isinstance(a, Fraction) else I(a)
        a2.append(a)
    return mkdef('uf:' + name, tuple(a2), sort, name)


def absr(x):
    if pyconst(x):
        return abs(x)
    x = R(x)
    # |a - b| and |b - a| become the same term
    if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_SUB, z3.Z3_OP_ADD) and x.num_args() == 2:
        a, b = x.children()
        neg = x.decl().kind() == z3.Z3_OP_SUB
        if neg and a.get_id() > b.get_id():
            x = b - a
    return z3.If(x >= 0, x, -x)


def minr(a, b):
    if pyconst(a) and pyconst(b):
        return min(a, b)
    a, b = R(a), R(b)
    return z3.If(b < a, b, a)


def maxr(a, b):
    if pyconst(a) and pyconst(b):
        return max(a, b)
    a, b = R(a), R(b)
    return z3.If(a < b, b, a)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isz(a) and isz(b) and a.eq(b):
        return a
    if pyconst(a) and pyconst(b) and a == b and type(a) == type(b):
        return a
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        if a is True and b is False:
            return c
        if a is False and b is True:
            return z3.Not(c)
        return z3.If(c, B(a), B(b))

    def isint(x):
        return (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, z3.ArithRef) and x.is_int())
    if isint(a) and isint(b):
        return z3.If(c, I(a), I(b))
    if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
        w = a.size() if isinstance(a, z3.BitVecRef) else b.size()
        return z3.If(c, bv(a, w), bv(b, w))
    return z3.If(c, R(a), R(b))


def bv(x, w):
    if isinstance(x, z3.BitVecRef):
        return x
    if isinstance(x, bool):
        return z3.BitVecVal(int(x), w)
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(x, z3.ArithRef):
        return z3.Int2BV(x, w)
    raise TypeError(repr(x))


def and_(*xs):
    ys = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def or_(*xs):
    ys = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def not_(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.children()[0]
    return z3.Not(x)


def implies(a, b):
    return or_(not_(a), b)


def isintv(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, z3.ArithRef) and x.is_int())


def eq(a, b):
    if not isz(a) and not isz(b):
        return a == b
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return B(a) == B(b)
    if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
        w = a.size() if isinstance(a, z3.BitVecRef) else b.size()
        return bv(a, w) == bv(b, w)
    if isintv(a) and isintv(b):
        return I(a) == I(b)
    return R(a) == R(b)


def cmp(op, a, b):
    if not isz(a) and not isz(b):
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]
    if isz(a) and isz(b) and a.eq(b):
        return op in ('le', 'ge')
    if isintv(a) and isintv(b):
        x, y = I(a), I(b)
    else:
        x, y = R(a), R(b)
    return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[op]


def lt(a, b): return cmp('lt', a, b)
def le(a, b): return cmp('le', a, b)
def gt(a, b): return cmp('gt', a, b)
def ge(a, b): return cmp('ge', a, b)


class S:
    """operator-overloading wrapper for writing specifications over mixed values"""
    __slots__ = ('v',)

    def __init__(s, v):
        s.v = v.v if isinstance(v, S) else v

    def __add__(s, o): return S(_ia(s.v, un(o), 'add'))
    __radd__ = lambda s, o: S(_ia(un(o), s.v, 'add'))
    def __sub__(s, o): return S(_ia(s.v, un(o), 'sub'))
    def __rsub__(s, o): return S(_ia(un(o), s.v, 'sub'))
    def __mul__(s, o): return S(_ia(s.v, un(o), 'mul'))
    __rmul__ = lambda s, o: S(_ia(un(o), s.v, 'mul'))
    def __truediv__(s, o): return S(fdiv(s.v, un(o)))
    def __rtruediv__(s, o): return S(fdiv(un(o), s.v))
    def __neg__(s): return S(fneg(s.v)) if not isintv(s.v) else S(0) - s
    def __pow__(s, n):
        n = un(n)
        assert isinstance(n, int)
        return S(fpowi(s.v, n))
    def __lt__(s, o): return lt(s.v, un(o))
    def __le__(s, o): return le(s.v, un(o))
    def __gt__(s, o): return gt(s.v, un(o))
    def __ge__(s, o): return ge(s.v, un(o))
    def eq(s, o): return eq(s.v, un(o))
    def ne(s, o): return not_(eq(s.v, un(o)))
    def __repr__(s): return "S(%r)" % (s.v,)


def un(x):
    if isinstance(x, S):
        return x.v
    if isinstance(x, float):
        return Fraction(repr(x))
    return x


def _ia(a, b, op):
    if isintv(a) and isintv(b):
        if isinstance(a, int) and isinstance(b, int):
            return {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
        x, y = I(a), I(b)
        return {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
    return {'add': fadd, 'sub': fsub, 'mul': fmul}[op](a, b)


# ------------------------------------------------------------------ closing queries under definitions
def consts_in(fs, seen=None, out=None):
    """uninterpreted constants (0-ary) in the formulas"""
    if seen is None:
        seen = set()
    if out is None:
        out = {}
    st = [f for f in fs if isz(f)]
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.num_args() == 0:
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out[i] = t
            else:
                st.extend(t.children())
        elif z3.is_quantifier(t):
            st.append(t.body())
    return out


def def_axioms(c, kind, args):
    x = args[0] if args else None
    if kind == 'inv':
        return [z3.Implies(x != 0, x * c == 1)]
    if kind == 'sqrt':
        return [z3.Implies(x >= 0, z3.And(c >= 0, c * c == x))]
    if kind.startswith('root'):
        n = int(kind[4:])
        p = c
        for _ in range(n - 1):
            p = p * c
        return [z3.Implies(x >= 0, z3.And(c >= 0, p == x, z3.Implies(x > 0, c > 0)))]
    if kind == 'floor':
        return [z3.ToReal(c) <= x, x < z3.ToReal(c) + 1]
    if kind.startswith('uf:'):
        f = UF_AX.get(kind[3:])
        return f(args, c) if f else []
    if kind == 'read':
        return []
    raise ValueError(kind)


def close(fs, extra=None, max_pairs=400):
    """axioms for every defined constant occurring (transitively) in fs. `extra(reads)` may instantiate facts:
    it gets the list of newly seen defs and returns further formulas."""
    if hasattr(extra, 'fresh'):
        extra = extra.fresh()
    seen = set()
    cs = {}
    axs = []
    groups = {}
    work = list(fs)
    done = set()
    while work:
        new = {}
        consts_in(work, seen, new)
        work = []
        newdefs = []
        for i, c in new.items():
            if i in done:
                continue
            done.add(i)
            d = DEFS.get(i)
            if d:
                newdefs.append(d)
                ax = def_axioms(*d)
                axs += ax
                work += ax
                work += [a for a in d[2] if isz(a)]
                if d[1].startswith('uf:') or d[1] == 'read':
                    k = (d[1],) if d[1] != 'read' else (d[1], d[2][0])
                    groups.setdefault(k, []).append(d)
        if extra is not None and newdefs:
            ex = extra(newdefs)
            axs += ex
            work += ex
    # congruence
    npairs = 0
    for k, g in groups.items():
        for i in range(len(g)):
            for j in range(i):
                a, b = g[i][2], g[j][2]
                if k[0] == 'read':
                    a, b = a[1:], b[1:]
                conds = []
                distinct = False
                for x, y in zip(a, b):
                    if isz(x) and isz(y) and x.eq(y):
                        continue
                    e = simp(eq(x, y))
                    if e is False:
                        distinct = True
                        break
                    if e is True:
                        continue
                    conds.append(e)
                if distinct:
                    continue
                npairs += 1
                if npairs > max_pairs:
                    break
                axs.append(z3.Implies(z3.And(*conds) if conds else z3.BoolVal(True), g[i][0] == g[j][0]))
    return axs


def UF_name(kind):
    return kind[3:]


def uid(_n=[0]):
    """a number never used before (solver AST ids are recycled and must not be used as identities)"""
    _n[0] += 1
    return _n[0]
