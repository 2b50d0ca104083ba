#!/usr/bin/env python3
"""Check driver: builds the simulator worlds from /repo's working tree, runs the seeded search for one property,
gates and reports violations, writes the evidence file.

  check.py C01            decide one property (VERIF_SEED, VERIF_TIER from the environment)
  check.py --setup        build everything
  check.py --replay FILE  re-execute a replay file and print its trace
"""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CETL_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from checks import CONFIGS, WORLDS, CHECKS  # noqa: E402

JOBS = max(1, min(8, os.cpu_count() or 1))


def die(msg, code=2):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(code)


# ----------------------------------------------------------------------------------------------------------- building
def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".hpp", ".h", ".cpp", ".py")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()[:20]


def source_key():
    return tree_hash([os.path.join(REPO, "include"), SIM])


def build(targets, errors=None, lean=False):
    """targets: list of (world, config). Returns {(world, config): binary}.

    If `errors` is given, what fails to build goes there instead of ending the check, and what does build is returned. A lean
    build lets the move-only types be copied.
    """
    key = source_key() + ("-lean" if lean else "")
    more = ["-DSIM_LEAN=1"] if lean else []
    root = os.path.join(BUILD, key)
    os.makedirs(root, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        os.utime(root)
        olds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if not d.startswith(".")), key=os.path.getmtime)
        for d in olds[:-3]:
            if d != root and os.path.isdir(d):
                shutil.rmtree(d, ignore_errors=True)
        out, objs = {}, {}
        for world, config in targets:
            w, c = WORLDS[world], CONFIGS[config]
            exe = os.path.join(root, "%s.%s" % (world, config))
            out[(world, config)] = exe
            if os.path.exists(exe):
                continue
            for src, extra in [(s, w.get("flags", []) + w.get("srcflags", {}).get(s, [])) for s in w["src"]] + \
                    [(s, w.get("rtflags", [])) for s in w.get("rt", ["simrt.cpp"])]:
                tag = hashlib.sha256(" ".join(extra).encode()).hexdigest()[:6]
                is_rt = src in w.get("rt", ["simrt.cpp"])
                flags = c.get("rtflags", c["flags"]) + extra if is_rt else c["flags"] + extra
                o = os.path.join(root, "%s.%s.%s.o" % (src.replace("/", "_"), config, tag))
                objs[o] = (c["cxx"], flags, os.path.join(SIM, src))

        def compile_one(item):
            o, (cxx, flags, src) = item
            if os.path.exists(o):
                return None
            cmd = [cxx] + flags + more + ["-I", os.path.join(REPO, "include"), "-I", SIM, "-c", src, "-o", o + ".tmp"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                return " ".join(cmd) + "\n" + r.stdout[-6000:]
            os.rename(o + ".tmp", o)
            return None

        with ThreadPoolExecutor(JOBS) as ex:
            errs = [e for e in ex.map(compile_one, sorted(objs.items())) if e]
        if errs and errors is None:
            die("build failed:\n" + errs[0])

        def link_one(t):
            world, config = t
            w, c = WORLDS[world], CONFIGS[config]
            exe = out[t]
            if os.path.exists(exe):
                return None
            os_ = []
            for src, extra in [(s, w.get("flags", []) + w.get("srcflags", {}).get(s, [])) for s in w["src"]] + \
                    [(s, w.get("rtflags", [])) for s in w.get("rt", ["simrt.cpp"])]:
                tag = hashlib.sha256(" ".join(extra).encode()).hexdigest()[:6]
                os_.append(os.path.join(root, "%s.%s.%s.o" % (src.replace("/", "_"), config, tag)))
            if not all(os.path.exists(o) for o in os_):
                return exe
            cmds = []
            if w.get("shared"):
                # the world is a shared object, so that the simulator can find and reset its static data
                lib = exe + ".so"
                n = len(w["src"])
                cmds.append([c["cxx"], "-shared"] + os_[:n] + w.get("ld", []) + ["-o", lib])
                cmds.append([c["cxx"], "-rdynamic"] + c["ld"] + os_[n:] + [lib, "-Wl,-rpath,$ORIGIN", "-o", exe + ".tmp"])
            else:
                cmds.append([c["cxx"]] + c["ld"] + os_ + w.get("ld", []) + ["-o", exe + ".tmp"])
            for cmd in cmds:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    return " ".join(cmd) + "\n" + r.stdout[-6000:]
            os.rename(exe + ".tmp", exe)
            return None

        with ThreadPoolExecutor(JOBS) as ex:
            errs += [e for e in ex.map(link_one, sorted(set(targets))) if e]
        if errs and errors is None:
            die("link failed:\n" + errs[0])
        if errs:
            errors.extend(errs)
        return {t: exe for t, exe in out.items() if os.path.exists(exe)}
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


# ----------------------------------------------------------------------------------------------------------- known findings
def known_findings(prop):
    """Lines `known: property=<id> plan=<file> class=<c> message=<text>`; `fixed:` lines suppress nothing.

    A known finding is one fixed plan (input, schedule and faults) under /verif/known. It is replayed, never searched
    for: the search excludes the situation it describes, and anything else it finds is reported."""
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                head, msg = line[len("known: "):].split(" message=", 1)
                d = dict(w.split("=", 1) for w in head.split())
                d["message"] = msg
                res.append(d)
    return res


def plan_header(path, key):
    for l in open(path):
        if l.startswith("# %s " % key):
            return l.split()[2]
    return None


def replay_known(prop):
    """Replays the known findings of a property. Returns the plan path of an unlisted violation, or None."""
    for k in known_findings(prop):
        plan = os.path.join(VERIF, k["plan"])
        t = (plan_header(plan, "binary"), plan_header(plan, "config"))
        exe = build([t], []).get(t)
        if exe is None:
            print("note: known finding %s cannot be built" % k["plan"])
            continue
        rr = subprocess.run([exe, "replay", plan, "--quiet", "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                            text=True, env=run_env())
        line = [l for l in rr.stdout.splitlines() if l.startswith("RESULT ")]
        if rr.returncode == 1 and line and line[-1].startswith("RESULT violation cls=%s " % k["class"]):
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k["message"], k["plan"]))
        elif rr.returncode == 1 and line:
            return plan, line[-1]
        elif rr.returncode == 0:
            print("note: known finding %s does not reproduce" % k["plan"])
        else:
            die("replay of %s failed: %s" % (plan, rr.stdout[-500:]))
    return None


# ----------------------------------------------------------------------------------------------------------- running
def run_env():
    env = dict(os.environ)
    for k in list(env):
        if k.endswith("SAN_OPTIONS"):
            del env[k]
    env["LC_ALL"] = "C"
    return env


def replay_head(exe, prop, j, classes):
    lean = "# build lean\n" if os.path.dirname(exe).endswith("-lean") else ""
    return "# property %s\n# binary %s\n# config %s\n# classes %s\n" % (prop, j["world"], j["config"], ",".join(classes)) + lean


def search(exe, prop, j, seed, runs, cap, classes, rfile, extra):
    """One seeded search. Returns (result, the violation in it repeats exactly, why not)."""
    cmd = [exe, "search", "--seed", str(seed & 0xFFFFFFFFFFFFFFFF), "--runs", str(runs), "--workers", str(JOBS),
           "--max-sec", "%.1f" % cap, "--classes", ",".join(classes), "--replay-out", rfile] + extra
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=run_env())
    try:
        res = json.loads(r.stdout)
    except ValueError:
        die("simulator failed: %s\n%s\n%s" % (" ".join(cmd), r.stdout[-2000:], r.stderr[-2000:]))
    if r.returncode != 0:
        die("simulator worker failed: %s" % " ".join(cmd))
    if "violation" not in res:
        return res, True, ""
    v = res["violation"]
    if not v.get("deterministic"):
        return res, False, "violation at index %d of %s.%s did not repeat identically: %s" % (v["index"], j["world"], j["config"], v["msg"])
    head = replay_head(exe, prop, j, classes)
    body = open(rfile).read()
    with open(rfile, "w") as f:
        f.write(head + body)
    # fresh process replay must reproduce class, message and history hash
    rr = subprocess.run([exe, "replay", rfile, "--quiet", "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                        text=True, env=run_env())
    line = [l for l in rr.stdout.splitlines() if l.startswith("RESULT ")]
    want = "RESULT violation cls=%s hash=%s" % (v["min_cls"], v["hash"])
    if rr.returncode != 1 or not line or not line[-1].startswith(want) or not line[-1].endswith("msg=" + v["min_msg"]):
        return res, False, "replay of %s differs from the search: %s" % (rfile, line)
    return res, True, ""


def sequence(exe, prop, j, seed, runs, cap, classes, rfile):
    """Looks for a violation that needs what earlier runs left behind in the process. The replay is a range of runs of the seed."""
    def one(args):
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=run_env())
        line = [l for l in r.stdout.splitlines() if l.startswith("RESULT ")]
        return line[-1] if r.returncode == 1 and line else None
    found = one(["sequence", "--seed", str(seed & 0xFFFFFFFFFFFFFFFF), "--runs", str(runs), "--max-sec", "%.1f" % cap,
                 "--classes", ",".join(classes), "--replay-out", rfile])
    if not found:
        return None
    body = open(rfile).read()
    with open(rfile, "w") as f:
        f.write(replay_head(exe, prop, j, classes) + body)
    if one(["replay", rfile, "--quiet", "1"]) != found:
        die("replay of %s differs from the search: %s" % (rfile, found))
    first, last = (int(x) for x in body.split("\nsequence ")[1].split()[1:3])
    head, msg = found.split(" msg=", 1)
    f = dict(x.split("=", 1) for x in head.split()[2:])
    return {"index": last, "min_cls": f["cls"], "min_msg": msg, "steps_before": last + 1, "steps_after": last - first + 1, "hash": f["hash"]}


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "--setup":
        t = []
        for c in CHECKS.values():
            for j in c["jobs"]:
                t.append((j["world"], j["config"]))
        build(sorted(set(t)))
        print("built %d binaries" % len(set(t)))
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        text = open(sys.argv[2]).read()
        w = [l.split()[1] for l in text.splitlines() if l.startswith("world ")]
        cfg = [l.split()[2] for l in text.splitlines() if l.startswith("# config ")][0]
        wname = [l.split()[2] for l in text.splitlines() if l.startswith("# binary ")]
        wname = wname[0] if wname else w[0]
        exe = build([(wname, cfg)], lean="\n# build lean\n" in text)[(wname, cfg)]
        return subprocess.run([exe, "replay", sys.argv[2]], env=run_env()).returncode
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        die("usage: check.py <property>|--setup|--replay FILE")

    prop = sys.argv[1]
    chk = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    targets = sorted(set((j["world"], j["config"]) for j in chk["jobs"]))
    errors = []
    bins = build(targets, errors)
    left = [t for t in targets if t not in bins]
    if left:
        # Not every instantiation compiles. What does may still show a violation; if it shows none, this is an error.
        bins.update(build(left, errors, lean=True))
        print("note: build errors in %s" % ", ".join("%s.%s" % t for t in left))
    t_build = time.time() - t0
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)

    known = replay_known(prop)
    if known:
        print("known finding now fails differently: %s" % known[1])
        print("VIOLATION property=%s replay=%s" % (prop, known[0]))
    deadline = t0 + (600 if tier == "quick" else 840)
    results, violation = [], None
    t_search = time.time()
    nj = len(chk["jobs"])
    for n, j in enumerate(chk["jobs"]):
        if (j["world"], j["config"]) not in bins:
            continue
        exe = bins[(j["world"], j["config"])]
        rfile = os.path.join(replays, "%s.%s.%s.%d.plan" % (prop, j["world"], j["config"], seed))
        if os.path.exists(rfile):
            os.remove(rfile)
        remaining = deadline - time.time() - 60
        if tier == "quick":
            runs, cap = j["quick"], max(10.0, min(120.0, remaining / (nj - n)))
        else:
            runs = j.get("thorough", j["quick"] * 1000)
            share = j.get("share", 1.0) / sum(x.get("share", 1.0) for x in chk["jobs"][n:])
            cap = max(5.0, min(remaining, float(os.environ.get("VERIF_THOROUGH_SEC", "300")) * j.get("share", 1.0) /
                               sum(x.get("share", 1.0) for x in chk["jobs"]) if share else remaining))
        res, ok, why = search(exe, prop, j, seed, runs, cap, chk["classes"], rfile, [])
        if "violation" in res and not ok:
            # Something carried over from one run of the process to the next. Search again with a process for every run.
            print("note: %s; searching again with a process for every run" % why)
            cap = max(10.0, min(120.0, deadline - time.time() - 30))
            res, ok, why = search(exe, prop, j, seed, runs, cap, chk["classes"], rfile, ["--isolate", "1"])
            if "violation" not in res:
                print("note: no run violates on its own; searching for a sequence of runs in one process")
                v = sequence(exe, prop, j, seed, runs, max(10.0, min(300.0, deadline - time.time() - 30)), chk["classes"], rfile)
                if not v:
                    die("a violation in %s.%s appears only after other runs of the same process" % (j["world"], j["config"]))
                res["violation"] = v
            elif not ok:
                die(why)
        res["config"] = j["config"]
        res["runs_requested"] = runs
        results.append(res)
        if "violation" in res:
            violation = (rfile, res["violation"])
            break
    if errors and not violation and not known:
        die("build failed:\n" + errors[0])
    wall = time.time() - t0
    search_s = max(0.001, time.time() - t_search)

    # ------------------------------------------------------------------------------------------- evidence
    def tot(k):
        return sum(r[k] for r in results)

    def merged(k):
        m = {}
        for r in results:
            for a, b in r[k].items():
                if isinstance(b, list):
                    m[a] = [x + y for x, y in zip(m.get(a, [0] * len(b)), b)]
                else:
                    m[a] = m.get(a, 0) + b
        return m

    samples = []
    for r in results:
        for s in r["samples"][:2]:
            samples.append({"world": r["world"], "config": r["config"], "plan": s})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": chk["level"],
        "coverage": {
            "evaluations": tot("runs"),
            "distinct_nontrivial": tot("distinct_histories"),
            "rule": "One evaluation is one simulated run (a plan generated from the seed and executed). A run is non-trivial if "
                    "at least three of its steps had an effect and, in a fault-injecting mode, at least one fault was "
                    "injected. Distinct means distinct 64-bit hash of the whole history (operations, results, every fault point "
                    "and its decision, every allocation, construction and destruction event)" +
                    chk.get("rule_extra", "") + "; counted per binary.",
            "samples": samples[:6],
            "nontrivial_runs": tot("runs_nontrivial"),
            "runs_fault_free": tot("runs_faultfree"),
            "runs_random_faults": tot("runs_random_faults"),
            "runs_single_fault_sweep": tot("runs_fault_sweep"),
            "seeds": tot("indices"),
            "seeds_per_hour": int(tot("indices") / search_s * 3600),
            "runs_per_hour": int(tot("runs") / search_s * 3600),
            "simulated_time_ticks": tot("ticks"),
            "simulated_time_unit": chk.get("tick", "scheduler steps (one client operation each)"),
            "faults_injected": {k: v for k, v in merged("faults_injected").items() if v},
            "fault_points_reached": {k: v for k, v in merged("fault_points").items() if v},
            "distinct_states": tot("distinct_states"),
            "distinct_states_measure": "hash of (binary variant, operation, abstract state of all objects after the step)" +
                                       chk.get("state_extra", ""),
            "operations_ok_failed_refused_noop": merged("ops"),
            "variants_runs": merged("variants"),
            "probes": merged("probes"),
            "runs_stopped_by_violation_of_other_property": tot("masked"),
            "components_real": sorted(set(r["real"] for r in results)),
            "components_simulated": sorted(set(r["stub"] for r in results)),
            "digests": {"%s.%s" % (r["world"], r["config"]): r["digest"] for r in results},
            "jobs": [{k: r[k] for k in ("world", "config", "exceptions", "cxx", "indices", "runs", "runs_requested", "wall_s",
                                        "distinct_histories_not_counted", "distinct_states_not_counted")} for r in results],
            "build_s": round(t_build, 2),
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(wall, 3),
        "violations": 1 if violation or known else 0,
    }
    if violation:
        ev["coverage"]["violation"] = {k: violation[1][k] for k in ("index", "min_cls", "min_msg", "steps_before", "steps_after", "hash")}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if known:
        return 1
    if violation:
        print("violated (%s): %s" % (violation[1]["min_cls"], violation[1]["min_msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, violation[0]))
        return 1
    print("held: property=%s runs=%d distinct=%d wall=%.1fs" % (prop, tot("runs"), tot("distinct_histories"), wall))
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception:  # exit status 1 is kept for violations
        traceback.print_exc()
        code = 2
    sys.exit(code)
