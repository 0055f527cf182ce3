#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decide one property on /repo's current tree by symbolic execution.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: a counterexample that the native
code reproduces. Exit 2: no answer (build failure, too little decided, or the executor and the
native code disagree)."""
import json, os, queue, random, resource, shlex, shutil, subprocess, sys, tempfile, threading, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, plans, texts

VERIF = build.VERIF
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
DEEP = TIER == "thorough"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
BUDGET = float(os.environ.get("VERIF_BUDGET", texts.BUDGET.get(PROP, (70, 1500))[1 if DEEP else 0]))
WORKERS = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 1))))
EVID = os.path.join(VERIF, "evidence")
os.makedirs(EVID, exist_ok=True)
DEBUG = PROP in texts.DEBUG
SCRATCH = tempfile.mkdtemp(prefix="bardecoder-check-") if DEBUG else None


def params(j):
    return ",".join(map(str, j["p"]))


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (int(8.5e9), int(8.5e9)))


class Worker:
    """one symx process"""
    def __init__(self, symx, module):
        self.cmd = [symx, "serve", module, "/repo/"]
        self.p = None
        self.z3 = None

    def start(self):
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1, preexec_fn=limits)
        l = self.p.stdout.readline()
        self.z3 = json.loads(l).get("z3") if l else None

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def run(self, j, seconds):
        if self.p is None:
            self.start()
        line = "entry=%s params=%s %s seconds=%.1f query_seconds=%.1f seed=%d\n" % (j["e"], params(j), j["o"], seconds, min(seconds, 120), SEED)
        timer = threading.Timer(seconds * 1.5 + 20, self.p.kill)
        timer.start()
        try:
            self.p.stdin.write(line)
            self.p.stdin.flush()
            r = self.p.stdout.readline()
            if not r:
                raise OSError("executor ended")
            return json.loads(r)
        except (OSError, ValueError) as e:
            self.stop()
            return {"status": "error", "error": "executor ended (memory or time): %s" % e}
        finally:
            timer.cancel()


def replay(binary, j, inputs, timeout=20):
    """native run of the harness on concrete inputs: 'held', 'fails' or 'mismatch', and its output"""
    cmd = [binary, j["e"], params(j), "-"]
    env = dict(os.environ)
    if DEBUG:
        # debug images go to a scratch directory of this run, or nowhere
        env["TMPDIR"] = SCRATCH if "fs=1" in j["o"] else "/dev/null"
    try:
        r = subprocess.run(cmd, input=",".join(inputs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace", env=env)
    except subprocess.TimeoutExpired:
        return "fails", "does not end within %d s" % timeout
    if r.returncode == 0:
        return "held", r.stdout
    if r.returncode == 3:
        return "mismatch", r.stdout
    return "fails", r.stdout + "\nexit status %d" % r.returncode


def known():
    """known findings of this property: list of (entry, params or None, kind)"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: ") and ("property=%s " % PROP) in l:
                d = dict(t.split("=", 1) for t in shlex.split(l[7:]) if "=" in t)
                out.append(d)
    return out


def is_known(k, j, v, out):
    for d in k:
        if d.get("entry") == j["e"] and d.get("params", params(j)) == params(j) and d.get("kind", v["kind"]) == v["kind"] and d.get("output", "") in out:
            return d
    return None


def main():
    jobs = plans.plan(PROP, DEEP, SEED)
    try:
        symx, module = build.build_all(DEBUG)
    except build.BuildError as e:
        print("cannot build: %s" % e)
        return 2
    t_build = time.time() - T0
    native = {}

    def nat():
        try:
            native["bin"] = build.build_native(DEBUG)
        except build.BuildError as e:
            native["err"] = str(e)
    nt = threading.Thread(target=nat)
    nt.start()

    q = queue.Queue()
    for i, j in enumerate(jobs):
        q.put((i, j))
    results = [None] * len(jobs)
    stop = threading.Event()
    state = {"violation": None, "broken": [], "known": [], "z3": None}
    lock = threading.Lock()
    kf = known()
    end = time.time() + BUDGET

    def confirm(i, j, v):
        nt.join()
        if "bin" not in native:
            state["broken"].append("native replay cannot be built: %s" % native.get("err"))
            return
        verdict, out = replay(native["bin"], j, v["inputs"])
        where = next((f for f, l, n in v["loc"] if f and "/library/" not in f), "")
        if verdict == "fails" and not v["kind"].startswith(("assertion", "path instruction")) and where.startswith(VERIF):
            with lock:
                state["broken"].append("the harness itself fails: %s at %s" % (v["kind"], v["loc"][:2]))
        elif verdict == "fails":
            d = is_known(kf, j, v, out)
            with lock:
                if d is not None:
                    state["known"].append((d, v))
                elif state["violation"] is None:
                    state["violation"] = (i, j, v, out)
                    stop.set()
        elif v["kind"] != "path instruction limit":
            with lock:
                state["broken"].append("job %d (%s %s): the executor reports %s, the native run %s: %s" % (i, j["e"], params(j), v["kind"], verdict, out[-300:]))

    def work():
        w = Worker(symx, module)
        while not stop.is_set():
            left = end - time.time()
            if left < 1:
                break
            try:
                i, j = q.get_nowait()
            except queue.Empty:
                break
            r = w.run(j, min(j["s"] * (4 if DEEP else 1), left))
            if w.z3:
                state["z3"] = w.z3
            results[i] = r
            if os.environ.get("VERIF_VERBOSE"):
                print(i, j["e"], params(j), r["status"], r.get("error"), "paths", r.get("paths"), "%.2fs" % r.get("wall_s", 0), r.get("reach"), flush=True)
            v = r.get("violation") or r.get("candidate")
            if v:
                confirm(i, j, v)
        w.stop()
    ts = [threading.Thread(target=work) for _ in range(WORKERS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    nt.join()

    # decided: the solver answered every query of the job and the assertions were reached
    decided, vacuous, open_, skipped = [], [], [], []
    for i, (j, r) in enumerate(zip(jobs, results)):
        if r is None:
            skipped.append(i)
        elif r["status"] == "ok":
            hit = r.get("reach", {})
            (decided if any(str(k) in hit for k in j["need"]) or not j["need"] else vacuous).append(i)
        elif r["status"] == "violation":
            pass
        else:
            open_.append(i)

    # the executor against the native code: finished paths must hold natively, too
    checked = 0
    if "bin" in native and not state["violation"]:
        rnd = random.Random(SEED)
        pool = [(i, k) for i in decided for k in range(len(results[i].get("witnesses", [])))]
        rnd.shuffle(pool)
        t_end = time.time() + (10 if not DEEP else 120)
        for i, k in pool[:60 if not DEEP else 2000]:
            if time.time() > t_end:
                break
            verdict, out = replay(native["bin"], jobs[i], results[i]["witnesses"][k])
            if verdict != "held":
                state["broken"].append("job %d (%s %s): the executor says the path holds, the native run %s: %s" % (i, jobs[i]["e"], params(jobs[i]), verdict, out[-300:]))
                break
            checked += 1

    def tot(k):
        return sum(results[i].get(k, 0) for i in decided)
    funcs, lines, reach = set(), set(), {}
    for i in decided:
        funcs.update(results[i].get("functions", []))
        lines.update(results[i].get("lines", []))
        for k, n in results[i].get("reach", {}).items():
            reach[k] = reach.get(k, 0) + n
    wall = time.time() - T0
    symbolic = sum(1 for i in decided if results[i]["vars"] > 0)
    cov = {
        "explanation": "Bounded symbolic execution of the LLVM IR of the current sources; every branch, panic and assertion on symbolic values is decided by Z3 for all values at once.",
        "states": tot("paths"),
        "transitions": tot("insts"),
        "traces_validated_against_impl": checked,
        "samples": [{"harness": jobs[i]["e"], "parameters": jobs[i]["p"], "options": jobs[i]["o"], "symbolic_bits": results[i]["vars"], "paths": results[i]["paths"], "queries": results[i]["sat"] + results[i]["unsat"], "a_path_is_taken_by": (results[i].get("witnesses") or [None])[-1]} for i in (decided[:1] + decided[len(decided) // 2:len(decided) // 2 + 1] + decided[-1:])],
        "rule": "a state is a feasible symbolic path that ran to its end (or to an expected panic), each standing for all input values that take it; transitions are LLVM instructions executed on those paths; validated traces are solver models of finished paths rerun natively",
        "jobs": len(jobs), "jobs_decided": len(decided), "jobs_with_symbolic_input": symbolic, "jobs_undecided": len(open_), "jobs_vacuous": len(vacuous), "jobs_not_started": len(skipped),
        "undecided": [{"job": i, "harness": jobs[i]["e"], "parameters": jobs[i]["p"], "reason": results[i].get("error")} for i in open_[:20]],
        "vacuous": [{"job": i, "harness": jobs[i]["e"], "parameters": jobs[i]["p"]} for i in vacuous[:20]],
        "symbolic_bits": tot("vars"), "solver": "Z3 %s" % state["z3"],
        "queries": tot("sat") + tot("unsat"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "solver_seconds": round(tot("solver_s"), 3),
        "assertions_by_solver": tot("asserts_by_solver"), "assertions_by_simplification": tot("asserts_by_simplification"),
        "panics_expected": reach.get("999999", 0), "assertion_sites_reached": {k: v for k, v in sorted(reach.items()) if k != "999999"},
        "functions_encoded": sorted(funcs), "repo_lines_executed": len(lines),
        "bounds": texts.BOUNDS[PROP], "outside": texts.OUTSIDE[PROP],
        "build_seconds": round(t_build, 1),
    }
    ev = {"property": PROP, "tier": TIER, "seed": SEED, "level": texts.LEVEL, "coverage": cov, "assumptions": texts.ASSUMPTIONS + texts.MORE.get(PROP, []), "wall_s": round(wall, 2), "violations": 1 if state["violation"] else 0}
    with open(os.path.join(EVID, PROP + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d jobs, %d decided, %d undecided, %d vacuous, %d not started; %d paths, %d queries (%.1f s in the solver), %d traces replayed, %.1f s" % (
        PROP, TIER, len(jobs), len(decided), len(open_), len(vacuous), len(skipped), cov["states"], cov["queries"], cov["solver_seconds"], checked, wall))
    for d, v in {json.dumps(d, sort_keys=True): (d, v) for d, v in state["known"]}.values():
        print("KNOWN-FINDING: property=%s %s" % (PROP, d.get("what", v["kind"])))
    if state["violation"]:
        i, j, v, out = state["violation"]
        path = os.path.join(EVID, "%s-replay.sh" % PROP)
        with open(path, "w") as f:
            f.write("#!/bin/sh\n# %s: %s\n# at %s\n# native output:\n%s\ncd %s\nexec $(python3 -c 'import sys; sys.path.insert(0, \"bin\"); import build; build.prepare(); print(build.build_native(%s))') %s %s - <<END\n%s\nEND\n" % (
                PROP, v["kind"], v["loc"][:4], "\n".join("#   " + x for x in out.strip().splitlines()[-12:]), VERIF, DEBUG, j["e"], params(j) or "''", ",".join(v["inputs"])))
        os.chmod(path, 0o755)
        print("counterexample of %s, parameters %s: %s at %s" % (j["e"], params(j), v["kind"], v["loc"][:3]))
        print("inputs: %s" % ",".join(v["inputs"])[:2000])
        print("native run: %s" % out.strip()[-600:])
        print("VIOLATION property=%s replay=%s" % (PROP, path))
        return 1
    if state["broken"]:
        for b in state["broken"][:5]:
            print("NO ANSWER: %s" % b)
        return 2
    started = len(jobs) - len(skipped)
    if len(decided) < max(1, 0.3 * started):
        print("NO ANSWER: only %d of %d jobs were decided: %s" % (len(decided), started, [cov["undecided"][:3], cov["vacuous"][:3]]))
        return 2
    return 0


try:
    rc = main()
finally:
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)
sys.exit(rc)
