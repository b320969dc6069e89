"""Runs the check of one property.

  run.py PID [--tier quick|thorough] [--unit NAME]
  run.py --replay FILE      re-executes a reported counterexample concretely
"""
import importlib
import importlib.util
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "python")


def load_z3():
    if "z3" in sys.modules:
        return
    base = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
    spec = importlib.util.spec_from_file_location(
        "z3", os.path.join(base, "__init__.py"), submodule_search_locations=[base]
    )
    m = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = m
    spec.loader.exec_module(m)


def setup_paths():
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(9000)  # PyPy: 768 bytes of stack each, under 8 MB
    if HERE in sys.path:
        sys.path.remove(HERE)
    for p in (REPO, SRC, VERIF):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    import zquantum.core

    got = os.path.realpath(list(zquantum.core.__path__)[0])
    want = os.path.realpath(os.path.join(SRC, "zquantum", "core"))
    if got != want:
        raise SystemExit("imported %s, not %s" % (got, want))


def units_of(pid, tier):
    mod = importlib.import_module("checks." + pid)
    return mod, [u for u in mod.UNITS if tier == "thorough" or not u.get("thorough")]


def unit_id(u):
    return u["name"]


def call(u, h):
    u["fn"](h, **u.get("args", {}))


def concrete(u, values, seed=0, generic=False):
    """None if every check passes, 'skip', or (label, detail, used values)."""
    from symx.harness import CheckFailed, ConcreteHarness, Skip

    h = ConcreteHarness(values, random.Random(seed), generic)
    try:
        call(u, h)
    except CheckFailed as e:
        return (e.label, str(e.detail), h.used)
    except Skip:
        return "skip"
    except Exception as e:
        return ("unexpected exception", "%s: %s" % (type(e).__name__, e) + "\n" + traceback.format_exc()[-1500:], h.used)
    return None


def profile_functions(seen):
    root = os.path.realpath(SRC)

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            fn = co.co_filename
            if fn.startswith(root):
                seen.add("%s:%s" % (fn[len(root) + 1:], co.co_name))

    return prof


def run_unit(args):
    pid, tier, name, budget = args
    load_z3()
    setup_paths()
    from symx import bridge, npshim, num
    from symx.engine import Stats, Violated, explore
    from symx.harness import SymHarness

    mod, units = units_of(pid, tier)
    u = [x for x in units if x["name"] == name][0]
    bridge.install()
    stats = Stats()
    functions = set()
    t0 = time.time()
    first = [True]
    patch = getattr(mod, "PATCH", None)

    def run(c):
        from symx.num import Unsupported

        p = npshim.install(types=u.get("types", False))
        undo = None
        try:
            if patch is not None:
                undo = patch(p, u)
            h = SymHarness(c)
            prof = first[0]
            if prof:
                first[0] = False
                sys.setprofile(profile_functions(functions))
            try:
                call(u, h)
            except Unsupported:
                raise
            except RecursionError:  # the model's values decide, concretely
                raise Unsupported("RecursionError")
            except NotImplementedError as e:
                raise Unsupported("NotImplementedError %s" % e)
            except Exception as e:
                if os.environ.get("SYMX_DEBUG"):
                    traceback.print_exc()
                tb = traceback.extract_tb(e.__traceback__)
                where = [f for f in tb if not f.filename.startswith(HERE)]
                raise Violated(
                    "unexpected exception",
                    "%s: %s at %s" % (type(e).__name__, e, where[-1:] if where else ""),
                    c.some_model(),
                )
            finally:
                if prof:
                    sys.setprofile(None)
        finally:
            p.undo()

    concolic = {"runs": 0}

    def on_path(info):
        """A path that could not be encoded: run its model concretely."""
        vals = info[1]
        if vals is None or concolic["runs"] > 50:
            return None
        concolic["runs"] += 1
        r = concrete(u, vals)
        if isinstance(r, tuple):
            return {"label": r[0], "detail": r[1], "values": r[2], "trace": 0}
        return None

    spurious = []

    def confirm(info):
        """Replay on the real code, with the model's values, then (same path
        shape, other reals) generic ones: only what reproduces is reported."""
        r = concrete(u, info["values"])
        if not isinstance(r, tuple):
            for seed in range(40 if len(spurious) < 3 else 3):
                r = concrete(u, info["values"], seed, True)
                if isinstance(r, tuple):
                    break
        if isinstance(r, tuple):
            info["replay"] = {"label": r[0], "detail": r[1], "values": dict(r[2])}
            return True
        spurious.append({"label": info["label"], "detail": info["detail"], "values": info["values"]})
        return False

    status, info = explore(run, stats, budget_s=u.get("budget", budget), query_ms=u.get("query_ms", 20000), on_path=on_path, confirm=confirm)
    out = {
        "unit": name,
        "status": status,
        "stats": stats.as_dict(),
        "functions": sorted(functions),
        "wall_s": time.time() - t0,
        "bounds": u.get("bounds", ""),
        "assume": u.get("assume", []),
        "concolic": concolic["runs"],
        "spurious": spurious[:5],
    }
    if status == "violated":
        out["info"] = info
        if "replay" in info:
            out["replay"] = info["replay"]
        else:  # a path that was only run concretely
            out["replay"] = {"label": info["label"], "detail": info["detail"], "values": info["values"]}
    return out


def rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096


def worker(conn):
    """Runs units until it has grown too big or is told to stop."""
    done = 0
    while True:
        job = conn.recv()
        if job is None:
            break
        try:
            out = ("ok", run_unit(job))
        except Exception as e:
            out = ("error", "%s: %s" % (type(e).__name__, e))
        done += 1
        conn.send((out, done >= 8 or rss() > 1.2e9))
    os._exit(0)


def pool(jobs, nproc, end, fresh=lambda out: False, grace=120):
    """Units in worker processes; one that dies costs (after a second try on its
    own) only its unit. After a fresh violation the others get a little time."""
    ctxm = multiprocessing.get_context("fork")
    todo, tries = list(jobs), {}
    results, errors, busy, idle = [], [], {}, []
    while todo or busy:
        while todo and len(busy) < nproc:
            if idle:
                p, conn = idle.pop()
            else:
                conn, theirs = ctxm.Pipe()
                p = ctxm.Process(target=worker, args=(theirs,), daemon=True)
                p.start()
                theirs.close()
            job = todo.pop(0)
            conn.send(job)
            busy[conn] = (p, job)
        left = end - time.time()
        ready = multiprocessing.connection.wait(list(busy), timeout=max(0.0, left)) if left > 0 else []
        if not ready:
            for p, job in busy.values():
                p.kill()
                errors.append((job[2], "timeout"))
            errors += [(job[2], "timeout") for job in todo]
            break
        for conn in ready:
            p, job = busy.pop(conn)
            try:
                (kind, out), stop = conn.recv()
            except (EOFError, ConnectionError):
                p.join()
                tries[job[2]] = tries.get(job[2], 0) + 1
                if tries[job[2]] < 2:
                    todo.append(job)
                else:
                    errors.append((job[2], "worker ended with %s" % p.exitcode))
                continue
            if kind == "ok":
                results.append(out)
                if fresh(out):
                    end = min(end, time.time() + grace)
            else:
                errors.append((job[2], out))
            if stop:
                conn.send(None)
                conn.close()
            else:
                idle.append((p, conn))
    for p, conn in idle:
        p.kill()
    return results, errors


def load_known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and line.startswith("{"):
                d = json.loads(line)
                if d.get("status") == "open":
                    out.append(d)
    return out


def matches(k, pid, unit, rep):
    if k["property"] != pid or k["unit"] != unit:
        return False
    if k.get("label") and k["label"] != rep["label"]:
        return False
    return True


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--unit" in argv:
        only = argv[argv.index("--unit") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    load_z3()
    setup_paths()
    mod, units = units_of(pid, tier)
    if only:
        units = [u for u in units if u["name"] == only]
    names = [u["name"] for u in units]
    assert len(set(names)) == len(names), "duplicate unit names"
    # unit cost hints first, so that long units start early
    order = sorted(units, key=lambda u: -u.get("cost", 1))
    total = 700.0 if tier == "quick" else 5400.0
    budget = getattr(mod, "UNIT_BUDGET", 300.0) if tier == "quick" else 3000.0
    jobs = [(pid, tier, u["name"], budget) for u in order]
    nproc = min(int(os.environ.get("SYMX_JOBS", "8")), max(1, len(jobs)))
    results, errors = [], []
    known = load_known()
    if nproc == 1 and only:
        results = [run_unit(j) for j in jobs]
    else:
        results, errors = pool(jobs, nproc, t0 + total, lambda r: r["status"] == "violated" and not any(matches(k, pid, r["unit"], r["replay"]) for k in known))
    violations, spurious, lines = [], [], []
    for r in results:
        spurious += [dict(x, unit=r["unit"]) for x in r["spurious"]]
        if r["status"] == "violated":
            rep = r["replay"]
            hit = [k for k in known if matches(k, pid, r["unit"], rep)]
            if hit:
                r["known"] = hit[0]["id"]
                lines.append("KNOWN-FINDING: property=%s %s" % (pid, hit[0]["what"]))
            else:
                violations.append(r)
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for r in violations:
        path = os.path.join(rdir, "%s_%s.json" % (pid, "".join(ch if ch.isalnum() else "_" for ch in r["unit"])[:80]))
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, "unit": r["unit"], "counterexample": r["replay"], "solver_model": r["info"]["values"], "assertion": r["info"]["label"]}, f, indent=1, default=str)
        r["path"] = path
    st = {}
    for r in results:
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)):
                st[k] = st.get(k, 0) + v
    notes = {}
    for r in results:
        for k, v in r["stats"]["notes"].items():
            notes[k] = notes.get(k, 0) + v
    functions = sorted(set(f for r in results for f in r["functions"]))
    incomplete = [r["unit"] for r in results if r["status"] == "budget"]
    incomplete += [n for n, _ in errors]
    vac = [r["unit"] for r in results if r["status"] == "ok" and r["stats"]["assert_queries"] + r["stats"]["path_constant"] == 0]
    wall = time.time() - t0
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL if hasattr(mod, "LEVEL") else "model_checking",
        "coverage": {
            "states": st.get("paths", 0),
            "transitions": st.get("branch_queries", 0),
            "traces_validated_against_impl": sum(r["concolic"] for r in results) + len(violations),
            "samples": [
                {"unit": r["unit"], "bounds": r["bounds"], "paths": r["stats"]["paths"],
                 "assertions_decided": r["stats"]["discharged"], "labels": r["stats"]["reach"],
                 "wall_s": round(r["wall_s"], 2)}
                for r in results[:60]
            ],
            "explanation": (
                "states = feasible paths of the real code executed symbolically; transitions = solver "
                "feasibility queries made while forking; every assertion on every path is one solver query "
                "over all values of the symbolic inputs."
            ),
            "units": len(results),
            "paths": st.get("paths", 0),
            "infeasible_paths": st.get("dead", 0),
            "feasibility_queries": st.get("branch_queries", 0),
            "assertion_queries": st.get("assert_queries", 0),
            "assertions_unsat": st.get("discharged", 0),
            "assertions_unknown": st.get("unknown", 0),
            "assertions_constant_on_their_path": st.get("path_constant", 0),
            "scalar_equalities": st.get("comparisons", 0),
            "paths_not_encodable": st.get("unsupported", 0),
            "solver_s": round(st.get("solver_s", 0.0), 2),
            "functions_encoded": functions,
            "notes": notes,
            "incomplete_units": incomplete,
            "unreproduced_counterexamples": [
                {"unit": r["unit"], "label": r["label"], "detail": str(r["detail"])[:300]} for r in spurious],
            "known_findings": [r["known"] for r in results if r.get("known")],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for l in sorted(set(lines)):
        print(l)
    print(
        "%s %s: %d units, %d paths, %d assertion queries (%d unsat, %d unknown), %d feasibility queries, "
        "%.1fs solver, %.1fs wall"
        % (pid, tier, len(results), st.get("paths", 0), st.get("assert_queries", 0), st.get("discharged", 0),
           st.get("unknown", 0), st.get("branch_queries", 0), st.get("solver_s", 0.0), wall)
    )
    for k, v in sorted(notes.items()):
        print("NOTE %s (%d)" % (k, v))
    for n in incomplete[:8]:
        print("INCOMPLETE unit %s" % n)
    for n, e in errors[:8]:
        print("ERROR unit %s: %s" % (n, e))
    for n in vac[:8]:
        print("VACUOUS unit %s" % n)
    for r in spurious[:8]:
        print("UNREPRODUCED unit %s: %s %s %s" % (r["unit"], r["label"], str(r["detail"])[:300], r["values"]))
    if violations:
        for r in violations[:6]:
            print("VIOLATION property=%s replay=%s" % (pid, r["path"]))
            print("  unit %s: %s: %s" % (r["unit"], r["replay"]["label"], r["replay"]["detail"][:600]))
            print("  values %s" % json.dumps(r["replay"]["values"], default=str)[:600])
        return 1
    if os.environ.get("SYMX_STRICT") and (incomplete or vac or spurious or notes):
        return 3
    if len(results) == 0 or (vac and len(vac) == len(results)):
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "Floating-point numbers are modelled as reals: rounding is outside the claim; a float constant within 1e-13 of a "
    "small rational, of k*pi/48 or of a small rational times sqrt(2,3,5,6,7) stands for that number.",
    "numpy/math functions reached with symbolic arguments are replaced by stand-ins with the documented meaning "
    "(object arrays for float/complex allocations); sympy runs unmodified and its results are translated.",
    "Angles are abstracted by their cosine and sine with c^2+s^2=1; products of angles with coefficients are treated "
    "as independent angles.",
]


def replay(path):
    d = json.load(open(path))
    setup_paths()
    mod, units = units_of(d["property"], "thorough")
    u = [x for x in units if x["name"] == d["unit"]][0]
    r = concrete(u, d["counterexample"]["values"])
    if isinstance(r, tuple):
        print("REPRODUCED property=%s unit=%s: %s: %s" % (d["property"], d["unit"], r[0], r[1]))
        return 1
    print("not reproduced: %s" % (r,))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
