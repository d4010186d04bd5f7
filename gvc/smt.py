"""Discharging obligations: z3 (in process), then z3-new / cvc5 on the SMT-LIB text; plus an exact rational-function
normaliser used as a first attempt on real equalities (its verdict 'equal' needs the denominators to be non-zero, which is
sent to z3 as a side query)."""
import os, subprocess, tempfile, time
from fractions import Fraction
import z3
from . import terms as T
from .terms import isz, conc_num
from . import eqprove

STATS = {"z3_time": 0.0, "queries": 0}


# ------------------------------------------------------------------ rational normaliser
class TooBig(Exception):
    pass


class Ratio:
    """polynomials: dict monomial -> Fraction; monomial = tuple of (atom id, exponent) sorted"""

    def __init__(s, limit=6000):
        s.atoms = {}
        s.limit = limit
        s.memo = {}
        s.dens = {}     # atom ids used as denominators

    def mul(s, a, b):
        if len(a) * len(b) > s.limit * 30:
            raise TooBig()
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m, f = s.mmul(m1, m2)
                c = c1 * c2
                if f is not None:      # sqrt atoms squared produced a polynomial factor
                    for m3, c3 in f.items():
                        mm, g = s.mmul(m, m3)
                        if g is not None:
                            raise TooBig()
                        v = r.get(mm, 0) + c * c3
                        if v:
                            r[mm] = v
                        else:
                            r.pop(mm, None)
                else:
                    v = r.get(m, 0) + c
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
        if len(r) > s.limit:
            raise TooBig()
        return r

    def mmul(s, m1, m2):
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        return tuple(sorted((a, e) for a, e in d.items() if e)), None

    def add(s, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        if len(r) > s.limit:
            raise TooBig()
        return r

    def atom(s, t):
        s.atoms[t.get_id()] = t
        return {((t.get_id(), 1),): Fraction(1)}

    def poly(s, t):
        """Laurent polynomial (negative exponents on inverted atoms) of a real term"""
        i = t.get_id()
        if i in s.memo:
            return s.memo[i]
        r = s._poly(t)
        s.memo[i] = r
        T._KEEP.append(t)
        return r

    def _poly(s, t):
        v = conc_num(t)
        if v is not None:
            v = Fraction(v)
            return {(): v} if v else {}
        if not z3.is_app(t):
            return s.atom(t)
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = s.add(r, s.poly(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = s.poly(ch[0])
            for c in ch[1:]:
                r = s.add(r, s.poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return s.add({}, s.poly(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in ch:
                r = s.mul(r, s.poly(c))
            return r
        if k == z3.Z3_OP_POWER:
            n = conc_num(ch[1])
            if n is not None and n.denominator == 1 and 0 <= n <= 20:
                r = {(): Fraction(1)}
                b = s.poly(ch[0])
                for _ in range(int(n)):
                    r = s.mul(r, b)
                return r
        if k == z3.Z3_OP_DIV:
            n = conc_num(ch[1])
            if n:
                return s.mul(s.poly(ch[0]), {(): 1 / Fraction(n)})
        d = T.DEFS.get(t.get_id())
        if d is not None and s.opaque:
            return s.atom(t)
        if d is not None and d[1] == 'inv':
            p = s.poly(d[2][0])
            if len(p) == 1:
                (m, c), = p.items()
                for a, e in m:
                    s.dens[a] = True
                return {tuple((a, -e) for a, e in m): 1 / c}
            # a proper sum in the denominator: treat the sum as an atom with exponent -1
            key = ('sum', s.canon(p))
            a = s.sumatom(key, p)
            lead = s.lead(p)
            return {((a, -1),): 1 / lead}
        if d is not None and d[1] == 'sqrt':
            return s.atom(t)
        return s.atom(t)

    def lead(s, p):
        m = min(p)
        return p[m]

    def canon(s, p):
        l = s.lead(p)
        return tuple(sorted((m, c / l) for m, c in p.items()))

    def sumatom(s, key, p):
        if not hasattr(s, 'sums'):
            s.sums = {}
            s.sump = {}
        a = s.sums.get(key)
        if a is None:
            a = -(len(s.sums) + 1)
            s.sums[key] = a
            l = s.lead(p)
            s.sump[a] = {m: c / l for m, c in p.items()}
            s.dens[a] = True
        return a

    def is_zero(s, p):
        """clear denominators and reduce sqrt/root atoms"""
        for _ in range(60):
            if not p:
                return True
            # clear negative exponents of sum atoms, then of plain atoms
            neg = {}
            for m in p:
                for a, e in m:
                    if e < 0:
                        neg[a] = min(neg.get(a, 0), e)
            if neg:
                mult = {(): Fraction(1)}
                sums = [a for a in neg if a < 0]
                plain = tuple(sorted((a, -e) for a, e in neg.items() if a > 0))
                if plain:
                    p = s.mul(p, {plain: Fraction(1)})
                for a in sums:
                    # multiply by sum^k: terms with a^-j become sum^(k-j)
                    k = -neg[a]
                    pw = [{(): Fraction(1)}]
                    for _i in range(k):
                        pw.append(s.mul(pw[-1], s.sump[a]))
                    r = {}
                    for m, c in p.items():
                        e = dict(m).get(a, 0)
                        rest = tuple(x for x in m if x[0] != a)
                        assert e <= 0
                        r = s.add(r, s.mul({rest: c}, pw[k + e]))
                    p = r
                continue
            # reduce sqrt atoms
            hit = None
            for m in p:
                for a, e in m:
                    if a > 0:
                        d = T.DEFS.get(a)
                        if d is not None and s.opaque and (d[1][:4] not in ("sqrt", "root") or len(s.poly(d[2][0])) > 1):
                            continue
                        if d is not None and d[1] == 'sqrt' and e >= 2:
                            hit = (a, 2, d)
                        elif d is not None and d[1].startswith('root') and e >= int(d[1][4:]):
                            hit = (a, int(d[1][4:]), d)
                if hit:
                    break
            if hit is None:
                return not p
            a, n, d = hit
            s.nonneg.append(d[2][0])
            x = s.poly(d[2][0])
            r = {}
            for m, c in p.items():
                e = dict(m).get(a, 0)
                if e >= n:
                    q, rem = divmod(e, n)
                    rest = tuple(sorted([y for y in m if y[0] != a] + ([(a, rem)] if rem else [])))
                    t = {rest: c}
                    for _i in range(q):
                        t = s.mul(t, x)
                    r = s.add(r, t)
                else:
                    r = s.add(r, {m: c})
            p = r
        return not p

    nonneg = None
    opaque = False


def has_ite(t, lim=3000):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > lim:
            return True
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return True
        st.extend(x.children())
    return False


def ratio_equal(a, b, opaque=False, limit=6000):
    """None if not shown equal, else list of side conditions (denominators != 0, radicands >= 0). opaque: reciprocals and roots are
    plain atoms (no cancellation, hence no side condition)"""
    try:
        R = Ratio(limit=limit)
        R.nonneg = []
        R.opaque = opaque
        p = R.add(R.poly(T.R(a)), R.poly(T.R(b)), -1)
        if R.is_zero(p):
            side = []
            for at in R.dens:
                if at > 0:
                    side.append(R.atoms[at] != 0)
                else:
                    # the sum itself
                    side.append(poly_term(R, R.sump[at]) != 0)
            seen = set()
            for x in R.nonneg:
                if x.get_id() not in seen:
                    seen.add(x.get_id())
                    side.append(x >= 0)
            return side
    except TooBig:
        pass
    except RecursionError:
        pass
    return None


def poly_term(R, p):
    tot = []
    for m, c in p.items():
        t = z3.Q(c.numerator, c.denominator)
        for a, e in m:
            base = R.atoms[a] if a > 0 else poly_term(R, R.sump[a])
            for _ in range(abs(e)):
                t = t * base if e > 0 else t * T.R(T.inv(base))
        tot.append(t)
    return z3.Sum(tot) if len(tot) > 1 else tot[0]


# ------------------------------------------------------------------ proving
class Result:
    def __init__(s, status, by="", model=None, reason="", t=0.0):
        s.status = status; s.by = by; s.model = model; s.reason = reason; s.t = t

    def __repr__(s):
        return "%s(%s %.2fs %s)" % (s.status, s.by, s.t, s.reason)


def conjuncts(f):
    if isz(f) and z3.is_and(f):
        out = []
        for c in f.children():
            out += conjuncts(c)
        return out
    return [f]


def z3_check(fs, timeout, tactic=None, seed=0):
    if tactic:
        try:
            so = z3.Tactic(tactic).solver()
        except z3.Z3Exception:
            so = z3.Solver()
    else:
        so = z3.Solver()
    so.set('timeout', int(timeout * 1000))
    so.add(*fs)
    t = time.time()
    try:
        r = so.check()
    except z3.Z3Exception as e:
        r = z3.unknown
    STATS["z3_time"] += time.time() - t
    STATS["queries"] += 1
    return r, so


def smt2(fs):
    so = z3.Solver()
    so.add(*fs)
    return so.to_smt2()


def cli(fs, timeout, which):
    txt = smt2(fs)
    fd, path = tempfile.mkstemp(suffix=".smt2")
    if which == "cvc5":
        # z3 prints rationals such as (/ 1.0 3.0): fine for cvc5
        txt = "(set-logic ALL)\n" + txt
    with os.fdopen(fd, "w") as f:
        f.write(txt)
    cmd = {"cvc5": ["cvc5", "--tlimit=%d" % int(timeout * 1000), path],
           "z3-new": ["z3-new", "-T:%d" % int(timeout), path],
           "z3": ["z3", "-T:%d" % int(timeout), path]}[which]
    t = time.time()
    try:
        o = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout + 5).stdout
    except (subprocess.TimeoutExpired, FileNotFoundError):
        o = ""
    finally:
        os.unlink(path)
    STATS["z3_time"] += time.time() - t
    STATS["queries"] += 1
    l = o.strip().split("\n")[0] if o.strip() else ""
    return l


def prove(pc, goal, inst=None, budget=20.0, cheap=False):
    """pc: list of assumptions; goal: formula"""
    t0 = time.time()
    if goal is True or (isz(goal) and z3.is_true(goal)):
        return Result("proved", "simplifier")
    pc = [c for c in pc if isz(c)]
    if goal is False:
        goal = z3.BoolVal(False)
    g = z3.simplify(goal)
    if z3.is_true(g):
        return Result("proved", "simplifier")
    if not cheap:
        sp = split_index(pc, goal)
        if sp:
            res = None
            for pc2, g2 in sp:
                r = prove(pc2, g2, inst, budget, cheap=True)
                if r.status != "proved":
                    r.t = time.time() - t0
                    break
                if res is None or r.by != "simplifier":
                    res = r
            else:
                res.t = time.time() - t0
                return res
            if r.status == "cex":
                return r
    # real equality by rational normal form
    if z3.is_eq(goal) and isinstance(goal.children()[0], z3.ArithRef) and goal.children()[0].is_real():
        a, b = goal.children()
        if not has_ite(a) and not has_ite(b):
            side = ratio_equal(a, b)
            if side is not None:
                if not side:
                    return Result("proved", "polynomial normal form", t=time.time() - t0)
                side = [x for x in (z3.simplify(x) for x in side) if not z3.is_true(x)]
                sg = z3.And(*side) if side else z3.BoolVal(True)
                r = _solve(pc, sg, inst, budget / 2)
                if r.status == "proved":
                    r.by = "rational normal form + " + r.by
                    r.t = time.time() - t0
                    return r
    if EQ and any(z3.is_eq(x) and isinstance(x.children()[0], z3.ArithRef) and x.children()[0].is_real() and not trivial_eq(x)
                  for _, x in eqprove.split_goal(pc, goal)):
        try:
            if eqprove.prove_eq(pc, goal, inst, min(60, budget * 3), _solve):
                return Result("proved", "equation rewriting + rational normal form", t=time.time() - t0)
        except (z3.Z3Exception, RecursionError):
            pass
    r = _solve(pc, goal, inst, budget)
    r.t = time.time() - t0
    return r


EQ = True


def sk_eqs(goal, memo=None):
    """atoms sk == t of the goal, sk a fresh index constant and t a term without it"""
    out = []
    seen = set()
    st = [goal]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_eq(t) and t.children()[0].sort().kind() == z3.Z3_INT_SORT:
            for x, y in (t.children(), t.children()[::-1]):
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("sk!") and x.get_id() not in T.consts_in([y]):
                    out.append((t, x, y))
                    break
        st.extend(t.children())
    return out


def subst_index(f, x, y, memo):
    """f with the index constant x replaced by y, also inside the definitions of the constants it mentions"""
    pairs = [(x, y)]
    for c in T.consts_in([f]).values():
        n = subst_const(c, x, y, memo)
        if n is not c:
            pairs.append((c, n))
    return z3.substitute(f, *[(a, T.R(b) if a.sort().kind() == z3.Z3_REAL_SORT else T.I(b) if a.sort().kind() == z3.Z3_INT_SORT else b) for a, b in pairs])


def subst_const(c, x, y, memo):
    if c.get_id() in memo:
        return memo[c.get_id()]
    memo[c.get_id()] = c
    d = T.def_of(c)
    if d is None:
        return c
    na = [z3.simplify(subst_index(a, x, y, memo)) if isz(a) else a for a in d[2]]
    if all(not isz(a) or a.eq(b) for a, b in zip(d[2], na)):
        return c
    k = d[1]
    r = T.inv(na[0]) if k == "inv" else T.sqrt(na[0]) if k == "sqrt" else None
    if r is None:
        srt = c.sort()
        nm = "real" if srt.kind() == z3.Z3_REAL_SORT else "int" if srt.kind() == z3.Z3_INT_SORT else "bool" if srt.kind() == z3.Z3_BOOL_SORT else "bv%d" % srt.size()
        r = T.mkdef(k, tuple(na), nm, c.decl().name().split("!")[0])
    memo[c.get_id()] = r
    return r


def split_index(pc, goal):
    """case analysis on 'the arbitrary element is the one this iteration wrote': two goals without that comparison"""
    es = sk_eqs(goal)
    if not es:
        return None
    e, x, y = es[0]
    if any(not (a is x or a.eq(x)) or not b.eq(y) for _, a, b in es):
        return None
    memo = {}
    try:
        same = z3.simplify(subst_index(goal, x, y, memo))
        diff = z3.simplify(z3.substitute(goal, *[(t, z3.BoolVal(False)) for t, _, _ in es]))
        pc1 = [subst_index(c, x, y, memo) if isz(c) else c for c in pc]
        return [(pc1, same), (list(pc) + [x != y], diff)]
    except (z3.Z3Exception, ValueError, TypeError):
        return None


def trivial_eq(e):
    """small equalities go straight to the solver"""
    return False


def _solve(pc, goal, inst, budget):
    neg = z3.Not(goal)
    # 1. without the path condition (fast when it is an identity)
    ax0 = T.close([neg])
    if pc or inst:
        r, so = z3_check([neg] + ax0, min(1.0, budget / 8))
        if r == z3.unsat:
            return Result("proved", "z3")
    fs = list(pc) + [neg]
    ax = T.close(fs, inst)
    alls = fs + ax
    r, so = z3_check(alls, min(6.0, budget / 3))
    if r == z3.unsat:
        return Result("proved", "z3")
    if r == z3.sat:
        return Result("cex", "z3", so.model())
    # 2. relevance: only conditions reachable from the goal in one / two steps
    for hops in (1, 2):
        sub = relevant(pc, neg, hops)
        if len(sub) < len(pc):
            fs2 = sub + [neg]
            r, so2 = z3_check(fs2 + T.close(fs2, inst), min(4.0, budget / 4))
            if r == z3.unsat:
                return Result("proved", "z3")
    r, so3 = z3_check(alls, min(6.0, budget / 3), 'qfnra-nlsat') if False else (z3.unknown, None)
    for which in ("cvc5", "z3"):
        o = cli(alls, max(3, budget / 2), which)
        if o == "unsat":
            return Result("proved", which)
        if o == "sat":
            # get a model in process if possible
            r, so = z3_check(alls, 5.0)
            return Result("cex", which, so.model() if r == z3.sat else None)
    return Result("unknown", reason="timeout")


def relevant(pc, goal, hops):
    cur = set(T.consts_in([goal]))
    cs = [(c, set(T.consts_in([c]))) for c in pc]
    keep = []
    for _ in range(hops):
        add = set()
        for c, k in cs:
            if k & cur and c not in keep:
                keep.append(c)
                add |= k
        # definitions link constants too
        for i in list(add):
            d = T.DEFS.get(i)
            if d:
                for a in d[2]:
                    if isz(a):
                        add |= set(T.consts_in([a]))
        cur |= add
    return keep
