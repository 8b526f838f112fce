"""Runs the solver-based check of one property (see DESIGN.md)."""

from __future__ import annotations

import argparse
import importlib
import json
import logging
import multiprocessing
import os
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)
logging.disable(logging.CRITICAL)
import warnings

warnings.simplefilter("ignore")

REPO = os.environ.get("SYMEX_REPO", "/repo")
CPUS = min(8, os.cpu_count() or 1)


def load(prop):
    importlib.import_module("harnesses." + prop.lower())
    from symex import harness

    return harness.CASES.get(prop, []), sys.modules["harnesses." + prop.lower()]


def known_findings(prop):
    """{finding id: text} listed for the property (lines of known_findings.txt)."""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                f = dict(x.split("=", 1) for x in line.split(" ")[1:3])
                if f.get("property") == prop:
                    out[f["id"]] = line.split(" ", 3)[3]
    return out


def plain_modules(modules):
    return [m for m in modules if not m.endswith("*") and not m.startswith("pyasn1")]


# ------------------------------------------------------------------------------------------ workers
def run_case(case, budget, listed, samples, out):
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    from symex import harness, rt

    rt.FUNCTIONS.clear()
    r = harness.CaseRun(case, budget, listed, samples)
    try:
        res = r.explore()
    except BaseException as e:
        res = {"case": case.name, "crash": "".join(traceback.format_exception(e))[-3000:]}
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)


def zygote(cases, budgets, listed, samples, outs, sem):
    """Imports the instrumented modules once and forks one worker per case."""
    from symex import instrument, rt

    rt.install()
    mods = cases[0].modules
    instrument.install(mods)
    for m in mods:
        if not m.endswith("*"):
            try:
                importlib.import_module(m)
            except Exception:
                traceback.print_exc()
    running = {}
    todo = list(range(len(cases)))
    while todo or running:
        if todo and sem.acquire(timeout=0.02):
            i = todo.pop(0)
            pid = os.fork()
            if pid == 0:
                try:
                    if "-v" not in sys.argv:
                        fd = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(fd, 1)
                    run_case(cases[i], budgets[i], listed, samples, outs[i])
                finally:
                    os._exit(0)
            running[pid] = time.monotonic() + budgets[i] + 25
        for pid in list(running):
            p, _ = os.waitpid(pid, os.WNOHANG)
            if p:
                del running[pid]
                sem.release()
            elif time.monotonic() > running[pid]:
                os.kill(pid, signal.SIGKILL)
        if not todo:
            time.sleep(0.01)


# ------------------------------------------------------------------------------------------ replay
class ItemTimeout(BaseException):
    pass


def _alarm(*a):
    raise ItemTimeout()


def do_replay(cases, item, listed, seconds=60):
    from symex import harness

    by = {c.name: c for c in cases}
    if item["case"] not in by:
        return {"error": "no such case"}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        return harness.run_concrete(by[item["case"]], item["inputs"], item.get("ufs"), listed)
    except ItemTimeout:
        return {"error": "timeout"}
    except BaseException as e:
        return {"error": "".join(traceback.format_exception(e))[-1500:]}
    finally:
        signal.alarm(0)


def replay_server(prop, listed):
    """Imports the plain modules, then executes the recorded assignments named on stdin."""
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    cases, _ = load(prop)
    for m in sorted({m for c in cases for m in plain_modules(c.modules)}):
        try:
            importlib.import_module(m)
        except Exception:
            pass
    for line in sys.stdin:
        item = json.loads(line)
        res = do_replay(cases, item, listed)
        out.write(json.dumps(res) + "\n")
        out.flush()


def judge(item, res):
    """Does the concrete run reproduce the candidate?"""
    if not res or res.get("error") or res.get("skip"):
        return False
    kind = item["kind"]
    if kind.startswith("known:"):
        return any(k == kind[6:] for k, _ in res["known"])
    if res["failed"]:
        return True
    if res["exc"] and not res["binding"]:
        return True
    return False


def replay_file(path):
    item = json.load(open(path))
    prop = item["property"]
    cases, _ = load(prop)
    res = do_replay(cases, item, known_findings(prop), 240)
    ok = judge(item, res)
    print(json.dumps({"failed": res.get("failed"), "known": res.get("known"), "exception": res.get("exc"), "error": res.get("error")}))
    if res.get("tb"):
        print(res["tb"])
    print("REPRODUCED" if ok else "NOT-REPRODUCED")
    return 1 if ok else 0


def compare_validation(item, res):
    """None if the concrete run observed what the symbolic path predicts, else a description."""
    if not res or res.get("error"):
        return "replay failed: %s" % (res or {}).get("error")
    if res["skip"]:
        return "an assumption does not hold in the replay"
    if res["exc"]:
        return "the replay raised %s: %s" % (res["exc"], (res.get("tb") or "")[-400:])
    a, b = item["observed"], [list(x) for x in res["observed"]]
    if len(a) != len(b):
        return "observed %d values instead of %d" % (len(b), len(a))
    for x, y in zip(a, b):
        if x != y:
            return "observed %s instead of %s" % (str(y)[:200], str(x)[:200])
    return None


# ------------------------------------------------------------------------------------------ main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--replay-server", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay_file(a.replay)
    prop = a.prop
    listed = known_findings(prop)
    if a.replay_server:
        return replay_server(prop, listed)
    t0 = time.monotonic()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    evpath = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evpath), exist_ok=True)
    if os.path.exists(evpath):
        os.remove(evpath)
    cases, mod = load(prop)
    cases = [c for c in cases if tier in c.tiers and (not a.case or a.case in c.name)]
    default = 40 if tier == "quick" else 500
    budgets = []
    for c in cases:
        b = c.budget or default
        if isinstance(b, dict):
            b = b.get(tier, default)
        budgets.append(b)
    total = 780 if tier == "quick" else 820
    replayer = subprocess.Popen(
        [sys.executable, "-X", "utf8", os.path.abspath(__file__), prop, "--replay-server"],
        stdin=subprocess.PIPE,
        stdout=subprocess.PIPE,
        stderr=None if a.v else subprocess.DEVNULL,
        text=True,
    )
    work = tempfile.mkdtemp(prefix="symex-")
    sem = multiprocessing.Semaphore(CPUS)
    groups = {}
    for i, c in enumerate(cases):
        groups.setdefault(c.modules, []).append(i)
    zs = []
    sys.stdout.flush()
    for mods, idx in groups.items():
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            try:
                idx.sort(key=lambda i: -budgets[i])
                zygote(
                    [cases[i] for i in idx],
                    [budgets[i] for i in idx],
                    listed,
                    2 if tier == "quick" else 6,
                    [os.path.join(work, f"{i}.json") for i in idx],
                    sem,
                )
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        zs.append(pid)
    live = set(zs)
    while live:
        for pid in list(live):
            try:
                p, _ = os.waitpid(pid, os.WNOHANG)
            except ChildProcessError:
                p = pid
            if p:
                live.discard(pid)
        if time.monotonic() - t0 > total:
            for pid in live:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        time.sleep(0.02)
    results = []
    for i, c in enumerate(cases):
        p = os.path.join(work, f"{i}.json")
        if os.path.exists(p):
            results.append(json.load(open(p)))
            os.remove(p)
        else:
            results.append({"case": c.name, "crash": "no result (killed, out of time or memory)"})
    try:
        os.rmdir(work)
    except OSError:
        pass

    # ---- replays on the plain code
    def ask(item):
        if time.monotonic() - t0 > total + 60:
            return {"error": "no time left"}
        try:
            replayer.stdin.write(json.dumps(item) + "\n")
            replayer.stdin.flush()
            line = replayer.stdout.readline()
            return json.loads(line) if line else {"error": "replay process ended"}
        except (BrokenPipeError, OSError, ValueError) as e:
            return {"error": str(e)}

    violations, known_hit, unrep, mismatches, validated, nvalid = [], {}, [], [], 0, 0
    done = 0
    for r in results:
        for item in r.get("candidates", []):
            if item["kind"].startswith("known:") and item["kind"][6:] in known_hit:
                continue
            if len(violations) >= 3 and not item["kind"].startswith("known:"):
                continue
            res = ask(item)
            done += 1
            if judge(item, res):
                if item["kind"].startswith("known:"):
                    known_hit[item["kind"][6:]] = item
                else:
                    violations.append((item, res))
            else:
                unrep.append({"case": item["case"], "msg": item["msg"], "inputs": _short(item["inputs"]), "replay": _short(res), "tb": item.get("tb", "")[-1200:]})
        for item in r.get("fallbacks", []):
            if len(violations) >= 3:
                continue
            res = ask(item)
            done += 1
            if judge(item, res):
                violations.append((item, res))
        for item in r.get("validations", []):
            nvalid += 1
            why = compare_validation(item, ask(item))
            if why is None:
                validated += 1
            else:
                mismatches.append({"case": item["case"], "why": why, "inputs": _short(item["inputs"])})
    try:
        replayer.stdin.close()
        replayer.wait(timeout=10)
    except Exception:
        replayer.kill()

    rdir = os.path.join(HERE, "evidence", "replay")
    code = 0
    lines = []
    for n, (item, res) in enumerate(violations[:3]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{n}.json")
        json.dump(dict(item, property=prop, outcome={k: res.get(k) for k in ("failed", "exc", "tb")}), open(path, "w"), indent=1)
        lines.append(f"VIOLATION property={prop} replay={path}")
        print(f"# {item['case']}: {res['failed'] or res['exc']}")
        code = 1
    for k, item in known_hit.items():
        print(f"KNOWN-FINDING: property={prop} {listed[k]}")
    for ln in lines:
        print(ln)

    inconclusive = {}
    for r in results:
        why = list(r.get("incomplete", []))
        if r.get("crash"):
            why.append(r["crash"])
        elif not r.get("reached"):
            why.append("vacuous: no assertion was reached")
        if why:
            inconclusive[r["case"]] = why
    tot = lambda k: sum(r.get(k, 0) for r in results)
    functions = sorted({f for r in results for f in r.get("functions", [])})
    coverage = {
        "explanation": (
            "Bounded symbolic execution of the real Python source of /repo (instrumented at import on this run) with z3: "
            "every obligation is a query over all values of the symbolic inputs within the stated bounds. "
            "'complete_cases' were explored on all feasible paths with every obligation discharged; "
            "'inconclusive' lists what was not."
        ),
        "cases": len(results),
        "complete_cases": len(results) - len(inconclusive),
        "paths": tot("paths"),
        "obligations": tot("obligations"),
        "discharged": tot("discharged"),
        "obligations_discharged_syntactically": tot("trivial"),
        "solver_queries": tot("queries"),
        "solver_sat": tot("sat"),
        "solver_unsat": tot("unsat"),
        "solver_unknown": tot("unknown"),
        "solver_seconds": round(sum(r.get("solver_s", 0) for r in results), 2),
        "functions_encoded": functions,
        "bounds": {r["case"]: {"bound": r.get("bound", ""), "params": r.get("params", {}), "paths": r.get("paths"), "wall_s": r.get("wall_s")} for r in results},
        "assertions_reached": {r["case"]: r.get("reached", []) for r in results},
        "outside": getattr(mod, "OUTSIDE", []),
        "inconclusive": inconclusive,
        "paths_replayed_on_plain_code": nvalid,
        "paths_replayed_in_agreement": validated,
        "encoding_mismatches": mismatches[:10],
        "counterexamples_not_reproduced": unrep[:10],
        "known_findings_reproduced": sorted(known_hit),
        "samples": [
            {"case": r["case"], "path_assignment": _short(v["inputs"])} for r in results for v in r.get("validations", [])[:1]
        ][:8],
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": coverage,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    json.dump(ev, open(evpath, "w"), indent=1)
    print(
        f"{prop} {tier}: {len(results)} cases ({coverage['complete_cases']} complete), {coverage['paths']} paths, "
        f"{coverage['discharged']}/{coverage['obligations']} obligations, {coverage['solver_queries']} queries, "
        f"{coverage['solver_seconds']} s solver, {validated}/{nvalid} paths agree with the plain code, "
        f"{len(violations)} violation(s), {len(known_hit)} known, {len(unrep)} not reproduced, {ev['wall_s']} s"
    )
    if inconclusive:
        for c, w in inconclusive.items():
            print(f"INCONCLUSIVE {c}: {'; '.join(w)[:600 if a.v else 200]}")
    if a.v:
        for m in mismatches:
            print("MISMATCH", m)
        for u in unrep:
            print("NOT-REPRODUCED", json.dumps(u)[:3000])
        for r in results:
            print("CASE", r["case"], r.get("paths"), "paths", r.get("obligations"), "obl", r.get("wall_s"), "s", r.get("solver_s"), "solver", "crash" if r.get("crash") else "")
            for t in r.get("aborted", []):
                print(t)
    return code


def _short(x):
    s = json.dumps(x)
    return x if len(s) < 1500 else s[:1500]


if __name__ == "__main__":
    sys.exit(main())
