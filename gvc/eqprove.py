"""Equalities under conditions: rewriting with the equations available in the context, case analysis over the if-then-else
conditions that remain, and the rational-function normal form at the leaves. Sound but incomplete: answers True or None."""
import time
import z3
from . import terms as T


def conj(f, out):
    if z3.is_and(f):
        for c in f.children():
            conj(c, out)
    else:
        out.append(f)
    return out


def split_goal(pc, goal):
    """-> list of (extra assumptions, goal)"""
    if z3.is_and(goal):
        return [x for c in goal.children() for x in split_goal(pc, c)]
    if z3.is_implies(goal):
        a, b = goal.children()
        return [(conj(a, []) + e, g) for e, g in split_goal(pc, b)]
    if z3.is_or(goal):
        ch = goal.children()
        eqs = [c for c in ch if z3.is_eq(c) or z3.is_and(c) or z3.is_implies(c)]
        if len(eqs) == 1:
            hyp = []
            for c in ch:
                if not c.eq(eqs[0]):
                    hyp += conj(T.not_(c), [])
            return [(hyp + e, g) for e, g in split_goal(pc, eqs[0])]
    return [([], goal)]


def nonlinear(t, memo):
    i = t.get_id()
    r = memo.get(i)
    if r is not None:
        return r
    r = False
    if z3.is_quantifier(t):
        r = True
    elif z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL and sum(1 for c in t.children() if T.conc_num(c) is None) > 1:
            r = True
        elif k in (z3.Z3_OP_POWER, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV):
            r = True
        else:
            r = any(nonlinear(c, memo) for c in t.children())
    memo[i] = r
    T._KEEP.append(t)
    return r


class Ctx:
    def __init__(s, pc, goal, inst, deadline):
        s.deadline = deadline
        s.memo_nl = {}
        fs = list(pc) + [goal]
        ax = T.close(fs, inst)
        s.facts = []
        for f in list(pc) + ax:
            if T.isz(f):
                conj(f, s.facts)
        s.light = z3.Solver()
        s.light.set('timeout', 300)
        for f in s.facts:
            if not nonlinear(f, s.memo_nl):
                s.light.add(f)
        s.queries = 0
        s.levels = [{}]       # answers known at each assumption level (an answer stays valid at deeper levels)
        s.factkeys = None

    def push(s):
        s.light.push()
        s.levels.append({})

    def pop(s):
        s.light.pop()
        s.levels.pop()

    def implied(s, c):
        """True / False / None"""
        if not T.isz(c):
            return bool(c)
        i = c.get_id()
        for l in s.levels:
            if l.get(i) is not None:
                return l[i]
        if i in s.levels[-1]:
            return None
        T._KEEP.append(c)
        r = s.levels[-1][i] = s._implied(c)
        return r

    def _implied(s, c):
        if z3.is_not(c):
            r = s._implied(c.children()[0])
            return None if r is None else not r
        if nonlinear(c, s.memo_nl):
            if s.factkeys is None:
                s.factkeys = {}
                for f in s.facts:
                    v = True
                    if z3.is_not(f):
                        f, v = f.children()[0], False
                    s.factkeys[f.get_id()] = v
                    kk = condkey(f)
                    if kk is not None:
                        s.factkeys[kk[0]] = v != kk[1]
            if c.get_id() in s.factkeys:
                return s.factkeys[c.get_id()]
            kk = condkey(c)
            if kk is not None:
                if kk[0] == ("true",):
                    return not kk[1]
                if kk[0] in s.factkeys:
                    return s.factkeys[kk[0]] != kk[1]
                return None
        s.queries += 1
        if s.light.check(z3.Not(c)) == z3.unsat:
            return True
        if s.light.check(c) == z3.unsat:
            return False
        return None

    # ---- rewriting equations: const -> term
    def equations(s, goal):
        """substitution for constants of the goal from (guarded) equations whose guard holds"""
        cand = {}
        for f in s.facts:
            g, e = [], f
            while True:
                if z3.is_implies(e):
                    conj(e.children()[0], g)
                    e = e.children()[1]
                elif z3.is_or(e):
                    eqs = [c for c in e.children() if z3.is_eq(c)]
                    if len(eqs) != 1:
                        e = None
                        break
                    for c in e.children():
                        if not c.eq(eqs[0]):
                            g.append(T.not_(c))
                    e = eqs[0]
                else:
                    break
            if e is None:
                continue
            for e1 in conj(e, []):
                if not z3.is_eq(e1):
                    continue
                a, b = e1.children()
                if not (isinstance(a, z3.ArithRef) and a.is_real()):
                    continue
                for x, y in ((a, b), (b, a)):
                    if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        cand.setdefault(x.get_id(), []).append((x, g, y))
        return cand


def rank(c):
    n = c.decl().name()
    return int(n.rsplit("!", 1)[1]) if "!" in n and n.rsplit("!", 1)[1].isdigit() else 0


class Rewriter:
    def __init__(s, ctx, cand):
        s.ctx = ctx; s.cand = cand
        s.sub = {}         # const id -> term or None (atom)
        s.busy = set()
        s.guard = {}

    def holds(s, g):
        for c in g:
            k = c.get_id()
            if k not in s.guard:
                T._KEEP.append(c)
                s.guard[k] = s.ctx.implied(c)
            if s.guard[k] is not True:
                return False
        return True

    def lookup(s, c):
        i = c.get_id()
        if i in s.sub:
            return s.sub[i]
        if i in s.busy:
            return None
        r = None
        s.busy.add(i)
        for x, g, y in s.cand.get(i, ()):
            cs = T.consts_in([y])
            # orientation: towards older constants only
            if i in cs or any(j in s.busy for j in cs):
                continue
            d = T.DEFS.get(i)
            sumdef = d is not None and d[1].startswith('uf:sum_')
            if y.num_args() == 0 and T.conc_num(y) is None:
                dy = T.DEFS.get(y.get_id())
                if sumdef or (rank(y) > rank(c) and not (dy is not None and dy[1].startswith('uf:sum_'))):
                    continue
            if s.holds(g):
                r = y
                break
        s.busy.discard(i)
        s.sub[i] = r
        return r


def rebuild(t, rw, env, memo, pick):
    """apply rewriting, decided conditions (env: id -> bool) and rebuild defined constants; pick: list receiving undecided conditions"""
    i = t.get_id()
    if i in memo:
        return memo[i]
    T._KEEP.append(t)
    r = _rebuild(t, rw, env, memo, pick)
    memo[i] = r
    return r


def Z(x, like):
    if T.isz(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return T.R(x) if like.is_real() else T.I(x)


def _rebuild(t, rw, env, memo, pick):
    if not z3.is_app(t) or T.conc_num(t) is not None:
        return t
    if t.num_args() == 0:
        if isinstance(t, z3.ArithRef) and t.is_real():
            y = rw.lookup(t)
            if y is not None:
                memo[t.get_id()] = t      # guard against cycles
                return rebuild(y, rw, env, memo, pick)
        d = T.DEFS.get(t.get_id())
        if d is None or d[1] == 'read':
            return t
        args = [rebuild(a, rw, env, memo, pick) if T.isz(a) else a for a in d[2]]
        args = [canon(a) if T.isz(a) and isinstance(a, z3.ArithRef) and a.is_real() else a for a in args]
        if all((x.eq(y) if T.isz(x) and T.isz(y) else x == y) for x, y in zip(args, d[2])):
            return t
        k = d[1]
        if k == 'inv':
            return Z(T.inv(args[0]), t)
        if k == 'sqrt':
            return Z(T.sqrt(args[0]), t)
        if k.startswith('root'):
            return Z(T.root(args[0], int(k[4:])), t)
        if k == 'floor':
            return Z(T.floor_(args[0]), t)
        if k.startswith('uf:'):
            so = 'real' if isinstance(t, z3.ArithRef) and t.is_real() else 'int' if isinstance(t, z3.ArithRef) else 'bool' if isinstance(t, z3.BoolRef) else 'bv%d' % t.size()
            return T.uf(k[3:], *args, sort=so)
        return t
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE:
        c = z3.simplify(rebuild(t.children()[0], rw, env, memo, pick))
        v = True if z3.is_true(c) else False if z3.is_false(c) else None
        if v is None:
            v = decide(c, rw, env)
        if v is None:
            at = whole_of(c, rw, env)
            at = atom_of(c, rw, env) if at is None else at
            pick.append(at)
            a = rebuild(t.children()[1], rw, env, memo, pick)
            b = rebuild(t.children()[2], rw, env, memo, pick)
            if z3.is_not(c):
                c, a, b = c.children()[0], b, a
            if isinstance(a, z3.ArithRef) and a.is_real():
                a, b = lincanon(a), lincanon(b)
            if a.eq(b):
                return a
            return z3.If(c, a, b)
        return rebuild(t.children()[1 if v else 2], rw, env, memo, pick)
    ch = t.children()
    n = [rebuild(c, rw, env, memo, pick) for c in ch]
    if all(x.eq(y) for x, y in zip(n, ch)):
        return t
    try:
        return t.decl()(*n)
    except z3.Z3Exception:
        return t


def whole_of(c, rw, env):
    """a combination of discrete conditions is decided as a whole (fewer cases than one per atom)"""
    while z3.is_not(c):
        c = c.children()[0]
    if (z3.is_and(c) or z3.is_or(c)) and not nonlinear(c, rw.ctx.memo_nl if hasattr(rw.ctx, "memo_nl") else {}) \
            and not any(isinstance(k, z3.ArithRef) and k.is_real() for k in T.consts_in([c]).values()):
        return c
    return None


def atom_of(c, rw, env):
    """an undecided atomic condition inside c"""
    if z3.is_not(c):
        return atom_of(c.children()[0], rw, env)
    if z3.is_and(c) or z3.is_or(c):
        for x in c.children():
            if decide(x, rw, env) is None:
                return atom_of(x, rw, env)
    return c


_CK = {}


def condkey(c):
    """normal form of a comparison of reals: ((strict, monic polynomial), negated) or None. Two comparisons with the same polynomial are
    the same condition however they are written"""
    i = c.get_id()
    if i in _CK:
        return _CK[i]
    T._KEEP.append(c)
    r = _CK[i] = _condkey(c)
    return r


def _condkey(c):
    from .smt import Ratio, TooBig
    k = c.decl().kind() if z3.is_app(c) else None
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
        return None
    a, b = c.children()
    if not (isinstance(a, z3.ArithRef) and a.is_real()):
        return None
    try:
        R = Ratio(limit=200)
        R.opaque = True
        p = R.add(R.poly(a), R.poly(b), -1)
    except (TooBig, RecursionError):
        return None
    p = {tuple(m): v for m, v in p.items() if v}
    if any(at < 0 for m in p for at, e in m):
        return None
    if not p:
        return ("true",), k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
    lead = p[max(p)]
    q = tuple(sorted((m, v / lead) for m, v in p.items()))
    if k == z3.Z3_OP_EQ:
        return ("eq", q), False
    # c: p (op) 0, p = lead * q
    op = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">"}[k]
    if lead < 0:
        op = {"<=": ">=", "<": ">", ">=": "<=", ">": "<"}[op]
    return {">=": (("ge", q), False), "<": (("ge", q), True), ">": (("gt", q), False), "<=": (("gt", q), True)}[op]


def record(env, c, v):
    env[c.get_id()] = (c, v)
    kk = condkey(c)
    if kk is not None:
        env[kk[0]] = (z3.Not(c), not v) if kk[1] else (c, v)


def decide(c, rw, env):
    i = c.get_id()
    if i in env:
        return env[i][1]
    r = None
    kk = condkey(c)
    if kk is not None and kk[0] == ("true",):
        return not kk[1]
    if kk is not None and kk[0] in env:
        return env[kk[0]][1] != kk[1]
    if z3.is_not(c):
        r = decide(c.children()[0], rw, env)
        r = None if r is None else not r
    elif z3.is_and(c) or z3.is_or(c):
        vs = [decide(x, rw, env) for x in c.children()]
        stop = False if z3.is_and(c) else True
        if stop in vs:
            r = stop
        elif None not in vs:
            r = not stop
    if r is None:
        r = rw.ctx.implied(c)
    if r is not None:
        record(env, c, r)
    return r


def lincanon(t):
    l = Abstract().linear(t)
    return t if l is None else z3.simplify(t, som=True)


def canon(t):
    from .smt import Ratio, TooBig, poly_term
    n = T.conc_num(t)
    if n is not None:
        return t
    try:
        R = Ratio(limit=40)
        R.opaque = True
        p = R.poly(t)
        items = sorted(p.items(), key=lambda mc: [(a, e) for a, e in mc[0]])
        tot = None
        for m, c in items:
            x = z3.Q(c.numerator, c.denominator)
            for a, e in m:
                for _ in range(e):
                    x = x * R.atoms[a]
            tot = x if tot is None else tot + x
        return z3.simplify(tot if tot is not None else z3.RealVal(0), som=True)
    except (TooBig, RecursionError):
        return t


def prove_eq(pc, goal, inst, budget, solve):
    t_end = time.time() + budget
    for hyp, g in split_goal(pc, goal):
        if not one(list(pc) + hyp, g, inst, t_end, solve):
            return None
    return True


def one(pc, goal, inst, t_end, solve):
    if not (z3.is_eq(goal) and isinstance(goal.children()[0], z3.ArithRef) and goal.children()[0].is_real()):
        return None
    ctx = Ctx(pc, goal, inst, t_end)
    cand = ctx.equations(goal)
    rw = Rewriter(ctx, cand)
    return leafs(ctx, rw, pc, goal, inst, t_end, solve, {}, 0)


def leafs(ctx, rw, pc, goal, inst, t_end, solve, env, depth):
    from .smt import ratio_equal
    if time.time() > t_end or depth > 16:
        return None
    a, b = goal.children()
    memo, pick = {}, []
    a2 = rebuild(a, rw, env, memo, pick)
    b2 = rebuild(b, rw, env, memo, pick)
    # rebuilding may expose constants defined by further facts
    r = compare(ctx, a2, b2, pc, env, inst, t_end, solve, 400 if pick else 6000)
    if r is None and not pick:
        b3 = unify_roots(ctx, a2, b2, pc, env, inst, t_end, solve)
        if b3 is not None:
            r = compare(ctx, a2, b3, pc, env, inst, t_end, solve, 6000)
    if r:
        return True
    if r is False and not pick:
        return None
    if not pick:
        return True if ctx.light.check() == z3.unsat else None
    # identify if-then-else terms of the two sides that are equal (linear reasoning) before splitting
    ia = ites(a2)
    ia.update(ites(b2))
    m2, reps, n = {}, [], 0
    for j, y in ia.items():
        if nonlinear(y, ctx.memo_nl):
            continue
        cy = set(T.consts_in([y]))
        hit = None
        for x, cx in reps:
            if len(cx & cy) * 2 < min(len(cx), len(cy)) or x.is_real() != y.is_real():
                continue
            n += 1
            if n > 80:
                break
            for off in offsets(x, y):
                if ctx.light.check(y != x + off) == z3.unsat:
                    hit = x + off
                    break
            if hit is not None:
                break
        if hit is None:
            reps.append((y, cy))
        else:
            m2[j] = hit
            T._KEEP.append(y)
    if m2:
        b3 = rebuild(b2, rw, env, dict(m2), [])
        a3 = rebuild(a2, rw, env, dict(m2), [])
        r = compare(ctx, a3, b3, pc, env, inst, t_end, solve, 1500)
        if r:
            return True
    inte = [c for c in pick if not any(isinstance(k, z3.ArithRef) and k.is_real() for k in T.consts_in([c]).values())]
    c = inte[0] if inte else pick[0]
    for v in (True, False):
        lit = c if v else z3.Not(c)
        ctx.push()
        lin = not nonlinear(c, ctx.memo_nl)
        if lin:
            ctx.light.add(lit)
            ctx.levels[-1].clear()
        ok = True
        if not (lin and ctx.light.check() == z3.unsat):
            env2 = dict(env)
            record(env2, c, v)
            T._KEEP.append(c)
            rw2 = Rewriter(ctx, rw.cand)
            ok = leafs(ctx, rw2, list(pc) + [lit], goal, inst, t_end, solve, env2, depth + 1)
        ctx.pop()
        if not ok:
            return None
    return True


def roots_of(t):
    """defined constants (roots, reciprocals, functions) of t, innermost first"""
    out = []
    seen = set()

    def go(x):
        for i, c in T.consts_in([x]).items():
            if i in seen:
                continue
            seen.add(i)
            d = T.DEFS.get(i)
            if d is not None and d[1] != 'read':
                for a in d[2]:
                    if T.isz(a):
                        go(a)
                out.append(c)
    go(t)
    return out


def unify_roots(ctx, a, b, pc, env, inst, t_end, solve):
    """b with those roots / reciprocals / function values that equal one of a's by their arguments replaced by a's; None if there are none"""
    from .smt import ratio_equal
    def same(p, q):
        if not (T.isz(p) and T.isz(q)):
            return not T.isz(p) and not T.isz(q) and p == q
        if p.eq(q):
            return True
        if not (isinstance(p, z3.ArithRef) and p.is_real() and isinstance(q, z3.ArithRef) and q.is_real()):
            return False
        return ratio_equal(p, q, True, 20000) == [] or compare(ctx, p, q, pc, env, inst, t_end, solve, 3000)
    ra = roots_of(a)
    have = {c.get_id() for c in ra}
    memo = {}
    n = 0
    for c in roots_of(b):
        if c.get_id() in have:
            continue
        d = T.DEFS[c.get_id()]
        c2 = rebuild(c, NoRewrite, {}, memo, [])
        if c2.get_id() in have:
            memo[c.get_id()] = c2
            continue
        args = [rebuild(x, NoRewrite, {}, memo, []) if T.isz(x) else x for x in d[2]]
        for y in ra:
            e = T.DEFS[y.get_id()]
            if e[1] != d[1] or len(e[2]) != len(args) or n > 60 or time.time() > t_end:
                continue
            n += 1
            if len(e[2]) == len(args) and all(same(p, q) for p, q in zip(e[2], args)):
                memo[c.get_id()] = y
                T._KEEP.extend((c, y))
                break
    if not memo:
        return None
    r = rebuild(b, NoRewrite, {}, memo, [])
    return None if r.eq(b) else r


def compare(ctx, a2, b2, pc, env, inst, t_end, solve, limit=6000):
    """True: equal; False: equal only under a side condition that was not proved; None: no"""
    from .smt import ratio_equal
    if limit > 400:
        nl = AbstractNL()
        try:
            x, y = nl.term(a2), nl.term(b2)
            if nl.made > 1 and ratio_equal(x, y, True, min(limit, 600)) == []:
                return True
        except z3.Z3Exception:
            pass
    ab = Abstract()
    aa, ba = ab.term(a2), ab.term(b2)
    small = ab.made > 1
    for opaque in (True, False):
        side = ratio_equal(aa, ba, opaque, limit) if small else None
        if side is not None:
            back = dict(ab.back)
            side = [rebuild(x, NoRewrite, {}, back, []) for x in side]
        else:
            side = ratio_equal(a2, b2, opaque, limit)
        if side is not None:
            side = [x for x in (z3.simplify(x) for x in side) if not z3.is_true(x)]
            if not side:
                return True
            if ctx.light.check() == z3.unsat:
                return True
            r = solve(list(pc) + [c if v else z3.Not(c) for c, v in env.values()], z3.And(*side), inst, max(1.0, min(10, t_end - time.time())))
            if r.status == "proved":
                return True
            return False
    return None


class NoRewrite:
    class ctx:
        @staticmethod
        def implied(c):
            return None

    @staticmethod
    def lookup(c):
        return None


class Abstract:
    """replaces every linear combination of atoms inside a product, reciprocal or root by a fresh atom (the same one for combinations
    that are multiples of each other), so that polynomials stay small; an identity that holds for the atoms holds for the terms"""
    def __init__(s):
        s.memo = {}; s.table = {}; s.back = {}; s.made = 0; s.lin = {}

    def linear(s, t):
        """{atom id: coeff} (key None: constant) or None"""
        i = t.get_id()
        if i in s.lin:
            return s.lin[i]
        r = s._linear(t)
        s.lin[i] = r
        T._KEEP.append(t)
        return r

    def _linear(s, t):
        n = T.conc_num(t)
        if n is not None:
            return {None: n} if n else {}
        k = t.decl().kind() if z3.is_app(t) else None
        ch = t.children()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            r = {}
            for j, c in enumerate(ch):
                x = s.linear(c)
                if x is None:
                    return None
                sg = -1 if k == z3.Z3_OP_UMINUS or (k == z3.Z3_OP_SUB and j) else 1
                for a, v in x.items():
                    r[a] = r.get(a, 0) + sg * v
            return {a: v for a, v in r.items() if v}
        if k == z3.Z3_OP_MUL:
            co, rest = 1, []
            for c in ch:
                n = T.conc_num(c)
                if n is not None:
                    co = co * n
                else:
                    rest.append(c)
            if len(rest) != 1:
                return None
            x = s.linear(rest[0])
            return None if x is None else {a: v * co for a, v in x.items()}
        if k in (z3.Z3_OP_POWER, z3.Z3_OP_DIV):
            return None
        if t.num_args() == 0:
            d = T.DEFS.get(t.get_id())
            if d is not None and d[1] != 'read' and not d[1].startswith('uf:'):
                return None
        return {t.get_id(): 1}

    def term(s, t):
        i = t.get_id()
        if i in s.memo:
            return s.memo[i]
        r = s._term(t)
        s.memo[i] = r
        T._KEEP.extend((t, r))
        return r

    def _term(s, t):
        if not z3.is_app(t) or T.conc_num(t) is not None or not (isinstance(t, z3.ArithRef) and t.is_real()):
            return t
        k = t.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            l = s.linear(t)
            if l is not None and len(l) > 1:
                keys = sorted(l, key=lambda a: -1 if a is None else a)
                lead = l[keys[-1]]
                key = tuple((a, l[a] / lead) for a in keys)
                if key not in s.table:
                    v = z3.FreshReal("lin")
                    s.table[key] = v
                    s.back[v.get_id()] = z3.simplify(t / T.R(lead))
                    s.made += 1
                v = s.table[key]
                return v if lead == 1 else T.R(lead) * v
        if t.num_args() == 0:
            d = T.DEFS.get(t.get_id())
            if d is None or d[1] == 'read' or d[1].startswith('uf:'):
                return t
            args = [s.term(a) if T.isz(a) else a for a in d[2]]
            if all((x.eq(y) if T.isz(x) else x == y) for x, y in zip(args, d[2])):
                return t
            return Z(T.inv(args[0]) if d[1] == 'inv' else T.sqrt(args[0]) if d[1] == 'sqrt' else T.root(args[0], int(d[1][4:])) if d[1].startswith('root') else t, t)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_POWER, z3.Z3_OP_DIV):
            n = [s.term(c) for c in t.children()]
            try:
                return t.decl()(*n)
            except z3.Z3Exception:
                return t
        return t


class AbstractNL(Abstract):
    """as Abstract, for every sum that is a factor of a product (or an argument), not only linear ones: sums whose canonical polynomials
    are multiples of each other become multiples of the same fresh atom"""
    def poly(s, t):
        from .smt import Ratio, TooBig
        try:
            R = Ratio(limit=80)
            R.opaque = True
            p = {m: v for m, v in R.poly(t).items() if v}
            if len(p) < 2 or any(at < 0 for m in p for at, e in m):
                return None
            return p
        except (TooBig, RecursionError):
            return None

    def inner(s, t):
        """t as a factor"""
        if not z3.is_app(t) or T.conc_num(t) is not None or not (isinstance(t, z3.ArithRef) and t.is_real()):
            return t
        i = ("in", t.get_id())
        if i in s.memo:
            return s.memo[i]
        r = t
        if t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            # the polynomial in the original atoms if it is small, else in the abstracted ones
            p = s.poly(t)
            r = x = s._sum(t)
            if p is None:
                p = s.poly(x)
            if p is not None:
                lead = p[max(p)]
                key = tuple(sorted((m, v / lead) for m, v in p.items()))
                if key not in s.table:
                    v = z3.FreshReal("fac")
                    s.table[key] = v
                    s.back[v.get_id()] = z3.simplify(t / T.R(lead))
                    s.made += 1
                v = s.table[key]
                r = v if lead == 1 else T.R(lead) * v
        else:
            r = s.term(t)
        s.memo[i] = r
        T._KEEP.extend((t, r))
        return r

    def _sum(s, t):
        n = [s.term(c) for c in t.children()]
        return t.decl()(*n)

    def _term(s, t):
        if not z3.is_app(t) or T.conc_num(t) is not None or not (isinstance(t, z3.ArithRef) and t.is_real()):
            return t
        k = t.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            return s._sum(t)
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_POWER, z3.Z3_OP_DIV):
            n = [s.inner(c) for c in t.children()]
            return t.decl()(*n)
        if t.num_args() == 0:
            d = T.DEFS.get(t.get_id())
            if d is None or d[1] == 'read' or d[1].startswith('uf:'):
                return t
            args = [s.inner(a) if T.isz(a) else a for a in d[2]]
            if all((x.eq(y) if T.isz(x) else x == y) for x, y in zip(args, d[2])):
                return t
            return Z(T.inv(args[0]) if d[1] == 'inv' else T.sqrt(args[0]) if d[1] == 'sqrt' else T.root(args[0], int(d[1][4:])) if d[1].startswith('root') else t, t)
        return t


def ites(t):
    """maximal arithmetic if-then-else subterms, looking through defined constants"""
    out, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE:
                if isinstance(x, z3.ArithRef):
                    out[i] = x
                continue
            if x.num_args() == 0:
                d = T.DEFS.get(i)
                if d is not None and d[1] != 'read':
                    st += [a for a in d[2] if T.isz(a)]
            st += x.children()
    return out


def leaves(t, out):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        leaves(t.children()[1], out)
        leaves(t.children()[2], out)
    else:
        out.append(t)
    return out


def offsets(x, y):
    """candidate differences y - x: differences of their branches"""
    seen, out = set(), []
    for b in leaves(y, []):
        for a in leaves(x, []):
            o = z3.simplify(b - a, som=True)
            if o.get_id() not in seen:
                seen.add(o.get_id())
                out.append(o)
    return sorted(out, key=lambda o: 0 if T.conc_num(o) == 0 else 1)[:9]
