"""Runs the contract units of one property: extraction, obligation generation, discharge, replay, evidence."""
import ctypes, json, os, random, re, signal, subprocess, sys, time, traceback, multiprocessing as mp
import z3
from . import terms as T, numeric, smt
from .project import Project, ExtractionError
from .unit import U, CU, Sampler, Reject, model_values
from .sym import EngineError
from .ir import Unsupported
from .terms import isz

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "evidence", "replays")


class Property:
    def __init__(s, pid, sources, headers=(), classes=(), extra=(), trusted=(), level="proof", note=""):
        s.pid = pid; s.sources = sources; s.headers = headers; s.classes = classes; s.extra = extra
        s.units = []
        s.trusted = list(trusted)
        s.level = level
        s.note = note

    def unit(s, name, cases=((),), tier="quick", budget=20.0, bounded=None, thorough_only=False):
        """bounded: this unit is a bounded stand-in with the stated bound (never counted as proved)"""
        def deco(fn):
            for c in cases:
                c = c if isinstance(c, tuple) else (c,)
                s.units.append(dict(name=name + ("<%s>" % ",".join(map(str, c)) if c else ""), fn=fn, args=c, budget=budget,
                                    bounded=bounded, thorough_only=thorough_only))
            return fn
        return deco


COMMON_TRUST = [
    "machine floating point treated as mathematical real arithmetic (rounding, NaN, infinities and signed zero not modelled); decimal literals and quotients stored as doubles are read as the simple rational they round from",
    "machine integers treated as mathematical integers (no overflow), unsigned comparison treated as signed comparison of non-negative values",
    "clang 18 -O0 front end (C++ to LLVM IR) and the IR semantics implemented by gvc (gvc/ir.py, gvc/sym.py), z3 5.3.2, cvc5 1.1.2, gvc's rational-function normaliser (gvc/smt.py)",
    "regions introduced separately in a contract (objects, arrays, stack variables) do not overlap",
    "libm: sqrt, pow, exp, log, sin, cos, tan, fabs, floor as real functions with the axioms in gvc/terms.py and gvc/sym.py",
    "termination is not proved",
]


def run_unit_symbolic(proj, un_, budget, bound=None, deadline=None):
    u = U(proj, un_["name"], bound=bound)
    u.ex.deadline = deadline
    un_["fn"](u, *un_["args"])
    return u


def discharge(u, budget, deadline):
    nontriv = 0
    cache = {}
    u.bad = {}
    for o in u.obls:
        left = deadline - time.time()
        o.exact = o.res is not None
        if left < 1:
            o.res = smt.Result("unknown", reason="unit time limit")
            continue
        goals = smt.conjuncts(o.goal) if isz(o.goal) else [o.goal]
        if u.bad.get(o.name, 0) >= 2:
            # two paths of this very obligation have already failed: the remaining ones add nothing
            o.res = smt.Result("unknown", reason="skipped after two failures of the same obligation")
            continue
        res = None
        for g in goals:
            r = smt.prove(o.pc, g, o.inst, min(budget, left))
            if r.status != "proved":
                res = r
                o.failed_goal = g
                break
            if res is None or r.by != "simplifier":
                res = r
        o.res = res or smt.Result("proved", "simplifier")
        if o.res.status != "proved":
            u.bad[o.name] = u.bad.get(o.name, 0) + 1


def cover_check(u, proj, un_, seed):
    """reachability behind the preconditions: some state satisfies the requires, and some path end is reachable"""
    fs = [f for f in u.st.pc if isz(f)]
    if not fs:
        return "sat (no preconditions)"
    r, so = smt.z3_check(fs + T.close(fs, u.ex.fact_inst(u.st)), 5.0)
    if r == z3.sat:
        return "sat (solver)"
    if r == z3.unsat:
        return "unsat"
    # solver undecided: find a concrete state by sampling
    rnd = random.Random(seed)
    for k in range(400):
        smp = Sampler(rnd, [])
        cu = CU(proj, un_["name"], smp, None)

        class Stop(Exception):
            pass

        def stop(*a, **kw):
            raise Stop()
        cu.call = stop
        try:
            un_["fn"](cu, *un_["args"])
        except Stop:
            try:
                cu.settle()
                return "sat (sampled)"
            except (Reject, numeric.Undefined):
                continue
        except (Reject, numeric.Undefined, EngineError):
            continue
    return "unknown"


# ---------------------------------------------------------------------- concrete stage
def concrete_trials(proj, un_, seed, models, tmax, want=None):
    """contract-guided search on the compiled code; a state that trips an assert() which the contract takes as an assumption is left out"""
    t_end = time.time() + tmax
    tot = {"tried": 0, "accepted": 0, "checked": 0}
    k = 0
    while True:
        r = _concrete_trials(proj, un_, seed + 7919 * k, models if k < 3 else [], max(1.0, t_end - time.time()), want)
        for f in tot:
            tot[f] += r[f]
        r.update(tot)
        k += 1
        c = r["crash"]
        if c and c["signal"] == signal.SIGABRT and c["inputs"] and c["inputs"].get("assumed_asserts"):
            r["crash"] = None
            if time.time() < t_end and not r["fail"]:
                continue
        return r


def _concrete_trials(proj, un_, seed, models, tmax, want=None):
    """run in a forked child; returns dict with the first failing trial, or None, plus counters"""
    proj.so()
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            resource_limits()
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            out = os.fdopen(wr, "w", buffering=1)
            _trials(proj, un_, seed, models, tmax, out, want)
            out.flush()
        finally:
            os._exit(0)
    os.close(wr)
    last = None
    res = {"tried": 0, "accepted": 0, "fail": None, "crash": None, "checked": 0}
    t0 = time.time()
    import select
    buf = b""
    while True:
        r, _, _ = select.select([rd], [], [], 1.0)
        if r:
            d = os.read(rd, 1 << 20)
            if not d:
                break
            buf += d
        elif time.time() - t0 > tmax + 30:
            os.kill(pid, signal.SIGKILL)
            break
    os.close(rd)
    _, status = os.waitpid(pid, 0)
    for line in buf.decode(errors="replace").split("\n"):
        if not line:
            continue
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e["k"] == "call":
            last = e
            res["tried"] = e["tried"]; res["accepted"] = e["accepted"]; res["checked"] = e["checked"]
        elif e["k"] == "done":
            last = None
            res["tried"] = e["tried"]; res["accepted"] = e["accepted"]; res["checked"] = e["checked"]
        elif e["k"] == "fail":
            res["fail"] = e
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGABRT, signal.SIGSEGV, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
        res["crash"] = {"signal": os.WTERMSIG(status), "inputs": last}
    return res


def resource_limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _trials(proj, un_, seed, models, tmax, out, want):
    dll = ctypes.CDLL(proj.so(), mode=os.RTLD_LAZY | os.RTLD_LOCAL)
    rnd = random.Random(seed)
    t0 = time.time()
    tried = acc = chk = 0
    k = 0
    nm = len(models)
    rejects = {}
    while time.time() - t0 < tmax and tried < 20000:
        k += 1
        tried += 1
        mv = ({}, {})
        if nm and (k <= nm * 6 or k % 10 == 0):
            mv = models[k % nm]
        smp = Sampler(rnd, [], mv[0], mv[1], maxn=rnd.choice([1, 2, 2, 3, 4, 6]))
        cu = CU(proj, un_["name"], smp, dll)

        def before(c):
            out.write(json.dumps({"k": "call", "assumed_asserts": c.ex.assert_mode != "check", "tried": tried, "accepted": acc, "checked": chk, "c": c.env.c, "a": [[n, i, v] for (n, i), v in c.env.a.items()], "maxn": smp.maxn, "log": str(c.log)[:3000]}) + "\n")
        cu.on_before_call = before
        try:
            un_["fn"](cu, *un_["args"])
        except Reject as e:
            rejects[str(e)[:60]] = rejects.get(str(e)[:60], 0) + 1
            continue
        except (numeric.Undefined, EngineError, OverflowError, ZeroDivisionError) as e:
            rejects[str(e)[:60]] = rejects.get(str(e)[:60], 0) + 1
            continue
        acc += 1
        chk += cu.checked
        if cu.fail:
            out.write(json.dumps({"k": "fail", "labels": cu.fail, "c": {n: v for n, v in cu.env.c.items() if v == v},
                                  "a": [[n, i, v] for (n, i), v in cu.env.a.items()],
                                  "maxn": smp.maxn, "log": str(cu.log)[:3000], "trial": tried}) + "\n")
            break
    out.write(json.dumps({"k": "done", "tried": tried, "accepted": acc, "checked": chk, "rej": sorted(rejects.items(), key=lambda x: -x[1])[:3]}) + "\n")


# ---------------------------------------------------------------------- one unit, in its own process
def unit_process(proj, un_, tier, seed, deadline, search_s, out_path):
    t0 = time.time()
    res = {"unit": un_["name"], "status": "error", "obligations": [], "functions": [], "assumptions": []}
    try:
        budget = un_["budget"] * (3 if tier == "thorough" else 1)
        udl = min(deadline, time.time() + (900 if tier == "thorough" else 400))
        bound = un_["bounded"]
        err = None
        try:
            u = run_unit_symbolic(proj, un_, budget, bound=bound, deadline=udl)
        except (EngineError, Unsupported, ExtractionError) as e:
            err = e
            u = None
        if u is not None:
            res["exec_s"] = round(time.time() - t0, 2)
            smt.STATS["z3_time"] = 0
            discharge(u, budget, udl)
            res["functions"] = sorted(set(u.functions))
            res["assumptions"] = u.assumptions
            res["inlined"] = sorted(u.ex.inlined)
            res["stubbed"] = sorted(u.ex.stubbed)
            res["loops"] = u.ex.loops_log
            res["paths"] = u.npaths
            res["solver_s"] = round(smt.STATS["z3_time"], 2)
            res["bounded"] = bound
            res["bounded_cut"] = u.ex.bounded_cut
            if not u.obls:
                raise EngineError("no obligations generated")
            res["cover"] = cover_check(u, proj, un_, seed)
            if res["cover"] == "unsat":
                raise EngineError("vacuous contract: the preconditions are unsatisfiable")
            for o in u.obls:
                res["obligations"].append({"name": o.name, "status": o.res.status, "by": o.res.by, "t": round(o.res.t, 3)})
            bad = [o for o in u.obls if o.res.status != "proved"]
            if not bad:
                res["status"] = "ok"
                return
            res["failed"] = [{"name": o.name, "status": o.res.status, "reason": o.res.reason,
                              "goal": str(getattr(o, "failed_goal", o.goal))[:2000],
                              "path": [str(p)[:400] for p in o.pc[-12:]],
                              "model": str(o.res.model)[:3000] if o.res.model is not None else None} for o in bad[:12]]
            models = []
            for o in bad:
                if o.res.model is not None and len(models) < 6:
                    models.append(model_values(o.res.model))
        else:
            bad = None
            models = []
            res["engine_error"] = "%s: %s" % (type(err).__name__, err)
        # -- concrete stage: verifier's counterexamples first, then contract-guided search on the real code
        ct = concrete_trials(proj, un_, seed, models, search_s)
        res["concrete"] = {k: ct[k] for k in ("tried", "accepted", "checked")}
        if ct["fail"]:
            res["status"] = "violation"
            res["replay"] = ct["fail"]
            return
        if ct["crash"] and (bad is None or any(":no-" in o.name for o in bad)):
            res["status"] = "violation" if bad is not None else "error"
            res["replay"] = ct["crash"]
            if bad is not None:
                return
        if bad is None:
            # extraction / engine limitation: bounded unrolling may still decide it
            pass
        # -- bounded stand-in: loops unrolled, no invariants
        for K in ((2,) if tier == "quick" else (2, 3)):
            try:
                bdl = min(deadline, time.time() + 150)
                ub = run_unit_symbolic(proj, un_, budget, bound=K, deadline=bdl)
                discharge(ub, budget, bdl)
                bb = [o for o in ub.obls if o.res.status != "proved"]
                res["bounded_standin"] = {"unroll": K, "obligations": len(ub.obls), "failed": len(bb), "paths_cut": ub.ex.bounded_cut}
                if not bb and ub.obls:
                    res["status"] = "undischarged-bounded-ok"
                    continue
                cex = [o for o in bb if o.res.status == "cex"]
                mods = [model_values(o.res.model) for o in cex if o.res.model is not None][:6]
                if mods:
                    ct = concrete_trials(proj, un_, seed + 1, mods, search_s / 2)
                    if ct["fail"]:
                        res["status"] = "violation"
                        res["replay"] = ct["fail"]
                        res["failed"] = [{"name": o.name, "status": o.res.status, "goal": str(o.goal)[:2000], "path": [], "model": str(o.res.model)[:3000]} for o in cex[:6]]
                        return
                if cex:
                    res["status"] = "violation-noinput"
                    if bad is None:
                        res["failed"] = [{"name": o.name, "status": o.res.status, "goal": str(o.goal)[:2000], "path": [], "model": str(o.res.model)[:3000]} for o in cex[:6]]
                    return
                res["status"] = "undecided"
                return
            except (EngineError, Unsupported, ExtractionError) as e:
                res["bounded_standin"] = {"unroll": K, "error": str(e)}
                if res["status"] == "undischarged-bounded-ok":
                    return
                if bad is None:
                    res["status"] = "error"
                else:
                    res["status"] = "undecided"
                return
    except Exception as e:
        res["status"] = "error"
        res["engine_error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        res["wall_s"] = round(time.time() - t0, 2)
        with open(out_path + ".tmp", "w") as f:
            json.dump(res, f, default=str)
        os.rename(out_path + ".tmp", out_path)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if isinstance(k, dict) and k.get("kind") == "known"]


def run_property(P, only=None, verbose=False, nproc=8):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    limit = 780 if tier == "quick" else 3 * 3600
    deadline = t0 + limit
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(REPLAYS, exist_ok=True)
    evpath = os.path.join(evdir, P.pid + ".json")
    if os.path.exists(evpath):
        os.unlink(evpath)
    try:
        proj = Project(P.sources, P.headers, P.classes, P.extra)
    except (ExtractionError, Unsupported) as e:
        print("ERROR extraction: %s" % e)
        return 2
    units = [u for u in P.units if (tier == "thorough" or not u["thorough_only"])]
    if only:
        units = [u for u in units if re.search(only, u["name"])]
    search_s = 20 if tier == "quick" else 120
    procs = {}
    results = {}
    queue = list(enumerate(units))
    found = False
    while queue or procs:
        while queue and len(procs) < nproc and not found:
            i, un_ = queue.pop(0)
            op = os.path.join(proj.dir, "res%d.json" % i)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                    unit_process(proj, un_, tier, seed, deadline, search_s, op)
                finally:
                    os._exit(0)
            procs[pid] = (i, un_, op, time.time())
        if found and not procs:
            break
        try:
            pid, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid in procs:
            i, un_, op, ts = procs.pop(pid)
            if os.path.exists(op):
                results[i] = json.load(open(op))
            else:
                results[i] = {"unit": un_["name"], "status": "error", "engine_error": "unit process died (status %d)" % status, "obligations": [], "functions": [], "assumptions": []}
            r = results[i]
            if verbose:
                print("  %-50s %-24s %3d obl %6.1fs exec %s %s" % (r["unit"], r["status"], len(r["obligations"]), r.get("wall_s", 0), r.get("exec_s"), r.get("cover", "")))
                sys.stdout.flush()
            if r["status"] == "violation" and not match_known(P.pid, r, load_known()):
                found = True
        else:
            time.sleep(0.02)
        now = time.time()
        for pid, (i, un_, op, ts) in list(procs.items()):
            if now > deadline + 60 or (found and now - t0 > 20):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
        if found and queue:
            queue = []
    return report(P, tier, seed, units, results, t0, found, verbose)


def match_known(pid, r, known):
    names = [f["name"] for f in r.get("failed", [])]
    ks = [k for k in known if k["property"] == pid and k["unit"] == r["unit"]]
    if not ks or not names:
        return None
    hit = []
    for n in names:
        m = [k for k in ks if k["obligation"] == n]
        if not m:
            return None
        hit.append(m[0])
    return hit


def report(P, tier, seed, units, results, t0, found, verbose):
    known = load_known()
    viol = []
    errs = []
    undec = []
    kf = []
    obl = dis = 0
    backs = {}
    fns = set(); ass = []
    inl = set(); stu = set(); loops = []
    bounded = []
    solver = 0.0
    covers = {}
    for i, un_ in enumerate(units):
        r = results.get(i)
        if r is None:
            if not found:
                errs.append((un_["name"], "not run"))
            continue
        st = r["status"]
        isb = un_["bounded"] is not None
        n = len(r["obligations"]); d = sum(1 for o in r["obligations"] if o["status"] == "proved")
        if isb:
            bounded.append({"unit": r["unit"], "loop_bound": un_["bounded"], "obligations": n, "passed": d, "paths_cut": r.get("bounded_cut")})
        else:
            obl += n
            dis += d
            for o in r["obligations"]:
                if o["status"] == "proved":
                    backs[o["by"]] = backs.get(o["by"], 0) + 1
        fns |= set(r.get("functions", []))
        inl |= set(r.get("inlined", []))
        stu |= set(r.get("stubbed", []))
        loops += [l for l in r.get("loops", []) if l not in loops]
        solver += r.get("solver_s", 0)
        for a in r.get("assumptions", []):
            if a not in ass:
                ass.append(a)
        c = r.get("cover", "none")
        covers[c] = covers.get(c, 0) + 1
        if st in ("violation", "violation-noinput"):
            k = match_known(P.pid, r, known)
            if k:
                kf += k
            else:
                viol.append(r)
        elif st == "error":
            errs.append((r["unit"], r.get("engine_error")))
        elif st in ("undecided", "undischarged-bounded-ok"):
            undec.append(r)
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (P.pid, k["what"]))
    lines = []
    viol.sort(key=lambda r: r["status"] != "violation")
    for r in viol[:5]:
        noinp = r["status"] == "violation-noinput"
        safe = re.sub(r"[^\w.-]+", "_", "%s_%s" % (P.pid, r["unit"]))
        path = os.path.join(REPLAYS, safe + ".json")
        with open(path, "w") as f:
            json.dump({"property": P.pid, "unit": r["unit"], "failed_obligations": r.get("failed"), "replay": r.get("replay"),
                       "concrete": r.get("concrete"), "bounded_standin": r.get("bounded_standin"),
                       "how_to_replay": "python3-vt /verif/check.py %s --replay %s" % (P.pid, path)}, f, indent=1, default=str)
        fo = r.get("failed") or []
        print("failed obligation(s) in unit %s: %s" % (r["unit"], ", ".join(sorted(set(x["name"] for x in fo)))))
        if r.get("replay"):
            print("  reproduced on the compiled code of /repo: %s" % (r["replay"].get("labels") or r["replay"]))
        lines.append("VIOLATION property=%s replay=%s%s" % (P.pid, path, " no-failing-input-found" if noinp else ""))
    for r in undec:
        print("UNDECIDED unit %s: %s (bounded stand-in: %s, search: %s)" % (r["unit"], [f["name"] for f in r.get("failed", [])] or r.get("engine_error"), r.get("bounded_standin"), r.get("concrete")))
    for n, e in errs:
        print("ERROR unit %s: %s" % (n, e))
    ev = {"property": P.pid, "tier": tier, "seed": seed, "level": P.level,
          "coverage": {"obligations": obl, "discharged": dis, "checker_cmd": "python3-vt /verif/check.py %s" % P.pid,
                       "trusted_base": COMMON_TRUST + P.trusted + ["contract assumed for callee: " + s for s in sorted(stu)],
                       "functions_under_contract": sorted(fns), "functions_inlined": sorted(inl)[:400], "units": len(results),
                       "discharged_by": backs, "solver_s": round(solver, 1), "loops_with_invariants": loops,
                       "reachability_of_preconditions": covers, "bounded_standins": bounded,
                       "undischarged": [{"unit": r["unit"], "failed": [f["name"] for f in r.get("failed", [])], "bounded_standin": r.get("bounded_standin"), "search": r.get("concrete")} for r in undec],
                       "known_findings": [k["what"] for k in kf]},
          "assumptions": ass, "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    if obl == 0:
        # e.g. stopped early by a violation
        ev["coverage"]["obligations"] = obl
    with open(os.path.join(VERIF, "evidence", P.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d units, %d/%d obligations discharged %s, %d bounded stand-ins, solver %.1fs, wall %.1fs" %
          (P.pid, len(results), dis, obl, backs, len(bounded), solver, time.time() - t0))
    for l in lines:
        print(l)
    sys.stdout.flush()
    if viol:
        return 1
    if errs:
        return 2
    if obl == 0:
        print("ERROR: no obligations")
        return 2
    return 0


def replay(P, path):
    d = json.load(open(path))
    r = d.get("replay")
    if not r or "c" not in r:
        print("no failing input recorded; failed obligations:", json.dumps(d.get("failed_obligations"), indent=1)[:4000])
        return 1
    proj = Project(P.sources, P.headers, P.classes, P.extra)
    un_ = [u for u in P.units if u["name"] == d["unit"]][0]
    dll = ctypes.CDLL(proj.so(), mode=os.RTLD_LAZY)
    smp = Sampler(random.Random(1), [], r["c"], {(n, i): v for n, i, v in r["a"]}, maxn=r["maxn"])
    cu = CU(proj, un_["name"], smp, dll)
    un_["fn"](cu, *un_["args"])
    print("calls:", cu.log)
    print("inputs:", {k: v for k, v in cu.env.c.items()})
    print("failed postconditions on the compiled code:", cu.fail)
    return 1 if cu.fail else 0


def selftest(P, only=None, tmax=5, seed=1):
    """contract-versus-compiled-code sampling of every unit (engine validation; not part of any verdict)"""
    proj = Project(P.sources, P.headers, P.classes, P.extra)
    bad = 0
    for un_ in P.units:
        if only and not re.search(only, un_["name"]):
            continue
        r = concrete_trials(proj, un_, seed, [], tmax)
        print(un_["name"], {k: r[k] for k in ("tried", "accepted", "checked")}, "FAIL %s" % str(r["fail"])[:600] if r["fail"] else "", "CRASH %s" % r["crash"]["signal"] if r["crash"] else "")
        bad += bool(r["fail"])
    return bad
