"""Numeric evaluation of specification terms with a running magnitude bound (tolerance for machine rounding in replays)."""
import math
from fractions import Fraction
import z3
from . import terms as T
from .terms import conc_num

TOL = 1e-7


class Undefined(Exception):
    pass


class Env:
    def __init__(s, consts=None, arrays=None):
        s.c = consts or {}
        s.a = arrays or {}     # (leafname, idx) -> value
        s.memo = {}


def clean(n):
    i = n.rfind("!")
    return n[:i] if i > 0 and n[i + 1:].isdigit() else n


def ev(t, env):
    """real/int terms: (value, magnitude); bool terms: True/False/None (too close to call)"""
    if isinstance(t, bool):
        return t
    if isinstance(t, (int, Fraction)):
        return (float(t) if isinstance(t, Fraction) else t, abs(float(t)))
    i = t.get_id()
    if i in env.memo:
        return env.memo[i]
    r = _ev(t, env)
    env.memo[i] = r
    env.memo[("keep", i)] = t
    return r


def _ev(t, env):
    v = conc_num(t)
    if isinstance(v, bool):
        return v
    if v is not None:
        return (float(v) if isinstance(v, Fraction) else v, abs(float(v)))
    if z3.is_bv_value(t):
        return (t.as_long(), 0.0)
    if not z3.is_app(t):
        raise Undefined("quantifier")
    d = t.decl()
    k = d.kind()
    if t.num_args() == 0 and k == z3.Z3_OP_UNINTERPRETED:
        D = T.DEFS.get(t.get_id())
        n = d.name()
        if D is not None:
            kind, args = D[1], D[2]
            if kind == 'read':
                ix = ev(args[1], env)[0]
                key = (clean(n), int(ix))
                if key not in env.a:
                    raise Undefined("array element %s[%s]" % key)
                x = env.a[key]
            else:
                av = [ev(a, env) if isinstance(a, z3.AstRef) else (float(a), abs(float(a))) for a in args]
                x, m = av[0] if av else (0, 0)
                try:
                    if kind == 'inv':
                        if x == 0:
                            raise Undefined("1/0")
                        r = 1.0 / x
                        return (r, abs(r) * min(1e6, max(1.0, m / abs(x))))
                    if kind == 'sqrt':
                        if x < 0:
                            raise Undefined("sqrt<0")
                        r = math.sqrt(x)
                        return (r, max(r, math.sqrt(m) if x < 1e-12 * m else r * min(1e6, m / x if x else 1)))
                    if kind.startswith('root'):
                        if x < 0:
                            raise Undefined("root<0")
                        r = x ** (1.0 / int(kind[4:]))
                        return (r, r)
                    if kind == 'floor':
                        f = math.floor(x)
                        if abs(x - round(x)) <= TOL * max(1.0, m) and x != round(x):
                            raise Undefined("floor boundary")
                        return (f, abs(f))
                    if kind.startswith('uf:'):
                        g = T.UF_INTERP.get(kind[3:])
                        if g is None:
                            raise Undefined("uninterpreted " + kind)
                        r = g(*[a[0] for a in av]) if not any(isinstance(a, bool) for a in av) else g(*[a if isinstance(a, bool) else a[0] for a in av])
                        if isinstance(r, bool):
                            return r
                        return (r, abs(r))
                except (ValueError, OverflowError, ZeroDivisionError) as e:
                    raise Undefined(str(e))
                raise Undefined(kind)
        else:
            if n not in env.c:
                if n in ("__inf",):
                    return (float("inf"), 1e300)
                raise Undefined("no value for " + n)
            x = env.c[n]
        if isinstance(x, bool):
            return x
        return (x, abs(float(x)))
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        vs = [ev(c, env) for c in ch]
        return (sum(v[0] for v in vs), sum(v[1] for v in vs))
    if k == z3.Z3_OP_SUB:
        vs = [ev(c, env) for c in ch]
        x = vs[0][0]
        for v in vs[1:]:
            x = x - v[0]
        return (x, sum(v[1] for v in vs))
    if k == z3.Z3_OP_UMINUS:
        v = ev(ch[0], env)
        return (-v[0], v[1])
    if k == z3.Z3_OP_MUL:
        x, m = 1, 1.0
        for c in ch:
            v = ev(c, env)
            x *= v[0]
            m *= v[1]
        return (x, m)
    if k in (z3.Z3_OP_DIV,):
        a, b = ev(ch[0], env), ev(ch[1], env)
        if b[0] == 0:
            raise Undefined("/0")
        return (a[0] / b[0], a[1] / abs(b[0]))
    if k == z3.Z3_OP_POWER:
        a, b = ev(ch[0], env), ev(ch[1], env)
        return (a[0] ** b[0], a[1] ** b[0])
    if k == z3.Z3_OP_IDIV:
        a, b = ev(ch[0], env), ev(ch[1], env)
        if b[0] == 0:
            raise Undefined("div 0")
        q = int(a[0]) // int(b[0]) if b[0] > 0 else -(int(a[0]) // int(-b[0]))
        return (q, abs(q))
    if k in (z3.Z3_OP_MOD, z3.Z3_OP_REM):
        a, b = ev(ch[0], env), ev(ch[1], env)
        if b[0] == 0:
            raise Undefined("mod 0")
        r = int(a[0]) % abs(int(b[0]))
        return (r, abs(r))
    if k == z3.Z3_OP_TO_REAL:
        v = ev(ch[0], env)
        return (float(v[0]) if abs(v[0]) < 2 ** 53 else v[0], v[1])
    if k == z3.Z3_OP_TO_INT:
        v = ev(ch[0], env)
        return (math.floor(v[0]), v[1])
    if k == z3.Z3_OP_ITE:
        c = ev(ch[0], env)
        if c is None:
            a, b = ev(ch[1], env), ev(ch[2], env)
            if isinstance(a, bool):
                if a == b:
                    return a
                return None
            if isinstance(a, tuple) and isinstance(b, tuple) and abs(a[0] - b[0]) <= TOL * (a[1] + b[1]):
                return a
            raise Undefined("undecided ite")
        return ev(ch[1] if c else ch[2], env)
    if k == z3.Z3_OP_NOT:
        c = ev(ch[0], env)
        return None if c is None else not c
    if k == z3.Z3_OP_AND:
        r = True
        for c in ch:
            v = ev(c, env)
            if v is False:
                return False
            if v is None:
                r = None
        return r
    if k == z3.Z3_OP_OR:
        r = False
        for c in ch:
            v = ev(c, env)
            if v is True:
                return True
            if v is None:
                r = None
        return r
    if k == z3.Z3_OP_IMPLIES:
        a = ev(ch[0], env)
        if a is False:
            return True
        b = ev(ch[1], env)
        if b is True:
            return True
        if a is None or b is None:
            return None
        return False
    if k == z3.Z3_OP_XOR:
        a, b = ev(ch[0], env), ev(ch[1], env)
        return None if a is None or b is None else a != b
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
        a, b = ev(ch[0], env), ev(ch[1], env)
        if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
            if a is None or b is None:
                return None
            r = a == b
        elif isinstance(a[0], int) and isinstance(b[0], int) and not isinstance(ch[0], z3.ArithRef):
            r = a[0] == b[0]
        elif ch[0].sort().kind() == z3.Z3_INT_SORT or isinstance(ch[0], z3.BitVecRef):
            r = a[0] == b[0]
        else:
            tol = TOL * (a[1] + b[1]) + 1e-290
            if a[0] == b[0]:
                r = True
            else:
                r = abs(a[0] - b[0]) <= tol
                if math.isnan(a[0]) or math.isnan(b[0]):
                    r = False
        return (not r) if k == z3.Z3_OP_DISTINCT else r
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
        a, b = ev(ch[0], env), ev(ch[1], env)
        if ch[0].sort().kind() != z3.Z3_INT_SORT:
            if a[0] != b[0] and abs(a[0] - b[0]) <= TOL * (a[1] + b[1]) + 1e-290:
                return None
        x, y = a[0], b[0]
        return {z3.Z3_OP_LE: x <= y, z3.Z3_OP_LT: x < y, z3.Z3_OP_GE: x >= y, z3.Z3_OP_GT: x > y}[k]
    # bit vectors
    if isinstance(t, z3.BitVecRef) or (ch and isinstance(ch[0], z3.BitVecRef)):
        subs = []
        for c in ch:
            v = ev(c, env)
            if isinstance(c, z3.BitVecRef):
                subs.append(z3.BitVecVal(int(v[0]), c.size()))
            elif isinstance(v, bool):
                subs.append(z3.BoolVal(v))
            else:
                subs.append(z3.IntVal(int(v[0])))
        r = z3.simplify(d(*subs))
        if z3.is_bv_value(r):
            return (r.as_long(), 0.0)
        v = conc_num(r)
        if isinstance(v, bool):
            return v
        if v is not None:
            return (int(v), abs(int(v)))
    if k == z3.Z3_OP_BV2INT if hasattr(z3, "Z3_OP_BV2INT") else False:
        v = ev(ch[0], env)
        return v
    raise Undefined("eval " + str(d))


T.UF_INTERP.update({
    "pow": lambda x, y: x ** y if x >= 0 else math.pow(x, y), "exp": math.exp, "log": math.log, "log10": math.log10, "sin": math.sin,
    "cos": math.cos, "tan": math.tan, "tanh": math.tanh, "atan": math.atan, "atan2": math.atan2, "acos": math.acos, "asin": math.asin,
    "pow2": lambda n: 2 ** int(n) if n >= 0 else 0,
})
