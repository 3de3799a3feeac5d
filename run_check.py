#!/usr/bin/env python3
"""Decides one property by exhaustive exploration of its scenarios on the real code.

usage: run_check.py Cxx [--thorough] [--only SCENARIO] [--jobs N] [-v]
       run_check.py --build            (prebuild everything)
       run_check.py --replay FILE      (re-run a recorded violation with its trace)
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(HERE, "build"))
EVID = os.environ.get("MC_EVID", os.path.join(HERE, "evidence"))
REPLAYS = os.environ.get("MC_REPLAYS", os.path.join(HERE, "replays"))
CXX = os.environ.get("MC_CXX", "g++")
BASE = ["-g1", "-pthread", "-Wno-deprecated-declarations", "-Wno-unused-result", "-w"]
INSTR = ["-O1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
T0 = time.time()


def log(*a):
    print(*a, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(root):
    h = hashlib.sha256()
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            h.update(p.encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()[:20]


class Builder:
    def __init__(self, jobs):
        self.jobs = jobs
        self.lib = tree_hash(os.path.join(REPO, "portable_concurrency"))
        self.engine = sha(read(os.path.join(HERE, "engine/mc.h")), read(os.path.join(HERE, "engine/runtime.cpp")))
        self.kit = sha(*[read(p) for p in sorted(glob.glob(os.path.join(HERE, "scen/*.h"))) + [os.path.join(HERE, "engine/mc.h")]])
        os.makedirs(BUILD, exist_ok=True)
        self.errors = []

    def compile(self, src, std, instr, key, tag):
        out = os.path.join(BUILD, "%s-%s.o" % (tag, key))
        if os.path.exists(out):
            os.utime(out)
            return out
        tmp = out + ".%d.tmp" % os.getpid()
        cmd = [CXX, "-std=" + std] + BASE + (INSTR if instr else ["-O2"]) + ["-I" + REPO, "-c", src, "-o", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            self.errors.append((src, r.stdout))
            return None
        os.rename(tmp, out)
        return out

    def sources(self):
        return sorted(glob.glob(os.path.join(REPO, "portable_concurrency", "**", "*.cpp"), recursive=True))

    def build(self, scen_files):
        """One executable per scenario file (a file that does not compile does not take the others along)."""
        jobs = {}
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            rt = ex.submit(self.compile, os.path.join(HERE, "engine/runtime.cpp"), "gnu++17", False, self.engine, "runtime")
            libs = {}
            for f in scen_files:
                std = "gnu++20" if b"MC_STD: gnu++20" in read(f)[:400] else "gnu++17"
                if std not in libs:
                    libs[std] = [ex.submit(self.compile, s, std, True, sha(self.lib, s, std, " ".join(INSTR)),
                                           "lib" + std[-2:] + "-" + os.path.basename(s)[:-4]) for s in self.sources()]
                key = sha(self.lib, self.kit, read(f), std, " ".join(INSTR))
                jobs[f] = (std, ex.submit(self.compile, f, std, True, key, os.path.basename(f)[:-4]), key)
            rt = rt.result()
            libs = {k: [j.result() for j in v] for k, v in libs.items()}
            bins = {}
            if rt is None:
                return bins

            def link(f, std, obj, key):
                if obj is None or any(o is None for o in libs[std]):
                    return None
                out = os.path.join(BUILD, "%s-%s-%s.bin" % (os.path.basename(f)[:-4], key, self.engine))
                if os.path.exists(out):
                    os.utime(out)
                    return out
                tmp = out + ".%d.tmp" % os.getpid()
                r = subprocess.run([CXX, "-no-pie", obj] + libs[std] + [rt, "-o", tmp, "-ldl", "-lpthread"],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    self.errors.append((f, r.stdout))
                    return None
                os.rename(tmp, out)
                return out

            links = {f: ex.submit(link, f, std, j.result(), key) for f, (std, j, key) in jobs.items()}
            for f, l in links.items():
                b = l.result()
                if b:
                    bins[f] = b
        return bins


    def api_failures(self, files):
        """Scenario files the compiler rejects although the public headers themselves compile: a documented use of the
        library is not possible any more. Anything that can be the fault of the machine is left out."""
        out = []
        for src, msg in self.errors:
            if src not in files or "error:" not in msg:
                continue
            if any(w in msg for w in ("internal compiler error", "Killed", "emory exhausted", "ut of memory", "No space left", "undefined reference", "ld returned")):
                continue
            std = "gnu++20" if b"MC_STD: gnu++20" in read(src)[:400] else "gnu++17"
            probe = os.path.join(BUILD, "probe-%d.cpp" % os.getpid())
            with open(probe, "w") as f:
                f.write("".join("#include <portable_concurrency/%s>\n" % h for h in ("execution", "functional", "future", "latch", "thread_pool", "timed_waiter")) + "int main() {}\n")
            ok = subprocess.run([CXX, "-std=" + std] + BASE + INSTR + ["-I" + REPO, "-c", probe, "-o", "/dev/null"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
            os.unlink(probe)
            again = subprocess.run([CXX, "-std=" + std] + BASE + INSTR + ["-I" + REPO, "-c", src, "-o", "/dev/null"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if ok and again.returncode == 1 and "error:" in again.stdout:
                out.append((src, msg))
        return out


def prune_build():
    """Keeps the build folder small: drops outputs not used for a while."""
    try:
        fs = sorted((os.path.getmtime(p), p) for p in glob.glob(os.path.join(BUILD, "*")) if os.path.isfile(p))
        for _, p in fs[:-400]:
            os.unlink(p)
    except OSError:
        pass


def scen_files(prop=None):
    pat = "*.cpp" if prop is None else prop.lower() + "*.cpp"
    return sorted(glob.glob(os.path.join(HERE, "scen", pat)))


def list_scen(binary):
    r = subprocess.run([binary, "--list"], stdout=subprocess.PIPE, text=True)
    out = []
    for l in r.stdout.splitlines():
        p = l.split()
        if len(p) >= 6:
            out.append({"prop": p[0], "name": p[1], "preempt": int(p[2]), "preempt_max": int(p[3]), "env": int(p[4]), "env_max": int(p[5])})
    return out


def symbolize(binary, text):
    pcs = sorted(set(re.findall(r"0x[0-9a-f]{6,16}", text)))
    if not pcs:
        return text
    try:
        r = subprocess.run(["addr2line", "-e", binary] + pcs, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
        for pc, l in zip(pcs, r.stdout.splitlines()):
            if not l.startswith("??"):
                text = text.replace(pc, "%s(%s)" % (pc, re.sub(r"^.*/(portable_concurrency/|scen/|include/c\+\+/)", r"\1", l.split(" ")[0])))
    except (OSError, subprocess.TimeoutExpired):
        pass
    return text


# Properties whose statement also holds when loads may return older values of the modification order. C14 bounds the
# number of tasks started after stop() under the assumption that its flag is seen at once.
STALE_EXEMPT = {"C14"}


def run_scenario(binary, sc, thorough, cap):
    stale = sc.get("stale")
    out = os.path.join(BUILD, "res-%s%s-%d.json" % (sc["name"], "-stale" if stale else "", os.getpid()))
    cmd = [binary, "--run", sc["name"], "--time", "%.1f" % cap, "--out", out]
    if stale:
        cmd += ["--stale", "--bound", str(sc["preempt"]), "--env", str(max(1, sc["env"]))]
    elif thorough:
        cmd.append("--thorough")
    t = time.time()
    note = None
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=cap + 60, errors="replace")
        rc, txt = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, txt = None, ""
        note = "killed after %.0f s" % (time.time() - t)
    res = None
    try:
        with open(out) as f:
            res = json.load(f)
        os.unlink(out)
    except (OSError, ValueError):
        pass
    if res is not None and stale:
        res["stale_pass"] = True
    if res is None:
        note = note or "no result, exit code %s: %s" % (rc, txt[-500:])
    return {"rc": rc, "res": res, "note": note, "wall": time.time() - t, "sc": sc, "bin": binary}


def replay_cmd(binary, res, thorough, extra=()):
    return [binary, "--run", res["scenario"], "--replay", ",".join(map(str, res["choices"])) if isinstance(res["choices"], list) else res["choices"],
            "--bound", str(res["replay_bound"]), "--env", str(res["env_bound"]), "--shared",
            ",".join(res["shared"]) if isinstance(res["shared"], list) else res["shared"]] + (["--stale"] if res.get("stale_pass") else ["--thorough"] if thorough else []) + list(extra)


def confirm(binary, res, thorough):
    """A violation counts only if its schedule, replayed in fresh processes, fails again in the same way."""
    for _ in range(2):
        try:
            r = subprocess.run(replay_cmd(binary, res, thorough), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120, errors="replace")
        except subprocess.TimeoutExpired:
            return False
        if r.returncode != 1:
            return False
    return True


def known_findings():
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) scenario=(\S+) kind=(\S+) match=(\S+) (.*)$", l)
            if m:
                out.append(dict(zip(("prop", "scenario", "kind", "match", "what"), m.groups())))
    return out


def describe(v):
    return "%s: %s" % (v.get("kind"), v.get("message"))


def check(prop, thorough, only, jobs, verbose):
    ev_path = os.path.join(EVID, prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    files = scen_files(prop)
    if not files:
        log("no scenarios for", prop)
        return 2
    b = Builder(jobs)
    bins = b.build(files)
    for src, msg in b.errors:
        log("note: does not compile here: %s\n%s" % (src, msg[-1500:]))
    broken = b.api_failures(files)
    if not bins and not broken:
        log("error: nothing could be built")
        return 2
    build_s = time.time() - T0
    scs = []
    for f, binary in bins.items():
        for sc in list_scen(binary):
            if sc["prop"] == prop and (not only or only in sc["name"]):
                scs.append((binary, sc))
    if not scs and not broken:
        log("error: no scenarios registered")
        return 2
    if thorough and prop not in STALE_EXEMPT:
        scs += [(binary, dict(sc, stale=True)) for binary, sc in scs]
    deadline = T0 + (float(os.environ.get("MC_DEADLINE", 10000)) if thorough else float(os.environ.get("MC_DEADLINE", 420)))
    cap = float(os.environ.get("MC_CAP", 900 if thorough else 40))
    results, known, violations = [], [], []
    kf = known_findings()

    def one(item):
        binary, sc = item
        left = deadline - time.time()
        if left < 3:
            return {"rc": None, "res": None, "note": "not started: out of time", "wall": 0, "sc": sc, "bin": binary}
        return run_scenario(binary, sc, thorough, min(cap, left))

    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(one, scs):
            results.append(r)
            res = r["res"]
            if verbose and res:
                log("%-34s%s execs %9d states %9d trans %10d closed=%s bound=%s/%s %.1fs %s" % (
                    res["scenario"], " stale" if res.get("stale_pass") else "", res["executions"], res["states"], res["transitions"], res["closed"], res["bound_done"], res["bound_target"], r["wall"],
                    json.dumps(res["outcomes"]) if len(res["outcomes"]) < 12 else "%d outcomes" % len(res["outcomes"])))
            if r["note"]:
                log("note: %s: %s" % (r["sc"]["name"], r["note"]))
    for r in results:
        res = r["res"]
        v = res.get("violation") if res else None
        if not v:
            continue
        v["message"] = symbolize(r["bin"], v["message"])
        k = next((k for k in kf if k["prop"] == prop and k["scenario"] == res["scenario"] and k["kind"] == v["kind"] and k["match"] in v["message"].replace(" ", "_")), None)
        if k:
            known.append((r, k))
            continue
        if not confirm(r["bin"], res, thorough):
            r["note"] = "violation not reproduced on replay, dropped: " + describe(v)
            log("note: %s: %s" % (res["scenario"], r["note"]))
            continue
        violations.append(r)
    for r, k in known:
        log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violations or broken:
        os.makedirs(REPLAYS, exist_ok=True)
    for src, msg in broken:
        path = os.path.join(REPLAYS, "%s-compile-%s.txt" % (prop, os.path.basename(src)[:-4]))
        with open(path, "w") as f:
            f.write("The scenario %s uses only documented interfaces and does not compile against %s any more:\n\n%s" % (src, REPO, msg))
        log("%s: does not compile: %s" % (os.path.basename(src), next((l for l in msg.splitlines() if "error:" in l), "")[:300]))
        log("VIOLATION property=%s replay=%s" % (prop, path))
    for i, r in enumerate(violations):
        res = r["res"]
        path = os.path.join(REPLAYS, "%s%s-%d.json" % (res["scenario"], "-stale" if res.get("stale_pass") else "", i))
        try:
            t = subprocess.run(replay_cmd(r["bin"], res, thorough, ["--trace"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120, errors="replace").stdout
        except subprocess.TimeoutExpired:
            t = ""
        with open(path, "w") as f:
            json.dump({"property": prop, "scenario": res["scenario"], "violation": res["violation"], "choices": res["choices"], "replay_bound": res["replay_bound"],
                       "env_bound": res["env_bound"], "shared": res["shared"], "thorough": thorough, "stale_pass": res.get("stale_pass", False), "trace": symbolize(r["bin"], t).splitlines()[-400:]}, f, indent=1)
        log("%s: %s" % (res["scenario"], describe(res["violation"])))
        log("VIOLATION property=%s replay=%s" % (prop, path))
    done = [r["res"] for r in results if r["res"]]
    tot = lambda k: int(sum(d[k] for d in done))
    exhaustive = bool(done) and len(done) == len(scs) and not b.errors and all(d["bound_done"] == d["bound_target"] or d["closed"] for d in done)
    samples = []
    for d in done[:6]:
        samples.append({"scenario": d["scenario"], "outcomes": dict(list(d["outcomes"].items())[:8]), "executions": d["executions"], "last_schedule": d.get("choices")})
    ev = {
        "property": prop,
        "tier": "thorough" if thorough else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": tot("states") + tot("data_choice_nodes"),
            "states_in_visited_table": tot("states"),
            "data_choice_nodes": tot("data_choice_nodes"),
            "transitions": tot("transitions"),
            "traces_validated_against_impl": tot("complete_executions"),
            "executions": tot("executions"),
            "pruned_at_visited_state": tot("pruned"),
            "scenarios": len(done),
            "scenarios_closed_without_bound": sum(1 for d in done if d["closed"]),
            "exhaustive": exhaustive,
            "per_scenario": [{"scenario": d["scenario"], "executions": d["executions"], "states": d["states"], "transitions": d["transitions"], "threads": d["threads"],
                              "preemption_bound_completed": ("unbounded" if d["closed"] else "none" if d["bound_done"] == -2 else d["bound_done"]), "preemption_bound_target": ("unbounded" if d["bound_target"] < 0 else d["bound_target"]),
                              "environment_bound": d["env_bound"], "older_values_allowed": bool(d.get("stale_pass")), "wall_s": round(d["wall"], 2), "outcomes": len(d["outcomes"])} for d in done],
            "not_completed": [{"scenario": r["sc"]["name"], "why": r["note"]} for r in results if r["note"]] + [{"file": os.path.basename(s), "why": "does not compile"} for s, _ in b.errors],
            "samples": samples,
        },
        "assumptions": [
            "The executions are those of the real library code compiled from %s with thread-sanitizer instrumentation calls, run under the checker's own scheduler; std::thread, mutexes, condition variables, clocks and allocation are replaced by modelled ones." % REPO,
            "Schedules are exhaustive up to the preemption bound stated per scenario; switches happen at synchronisation operations and at accesses to memory found to be shared, data races being reported separately from the happens-before relation.",
            "Loads return the latest value in the modification order and weaker visibility is judged through happens-before (race detection)" + ("; the passes marked older_values_allowed let one load per execution return any older value coherence permits." if thorough else "; the thorough tier adds passes in which loads may return older values."),
        ],
        "wall_s": round(time.time() - T0, 2),
        "build_s": round(build_s, 2),
        "violations": len(violations) + len(broken),
        "known_findings": len(known),
    }
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    n = len(done)
    log("%s %s: %d scenarios, %d executions (%d complete), %d states, %d transitions, exhaustive within bounds: %s, %.1f s (build %.1f s)" % (
        prop, ev["tier"], n, tot("executions"), tot("complete_executions"), tot("states"), tot("transitions"), exhaustive, time.time() - T0, build_s))
    prune_build()
    if violations or broken:
        return 1
    if n == 0:
        log("error: no scenario produced a result")
        return 2
    return 0


def main():
    a = sys.argv[1:]
    thorough = "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough"
    jobs = os.cpu_count() or 4
    only = None
    if "--jobs" in a:
        jobs = int(a[a.index("--jobs") + 1])
    if "--only" in a:
        only = a[a.index("--only") + 1]
    if "--build" in a:
        b = Builder(jobs)
        bins = b.build(scen_files())
        for src, msg in b.errors:
            log("note: does not compile: %s\n%s" % (src, msg[-3000:]))
        log("%d of %d scenario files built in %.1f s" % (len(bins), len(scen_files()), time.time() - T0))
        return 0 if bins else 2
    if "--replay" in a:
        d = json.load(open(a[a.index("--replay") + 1]))
        bins = Builder(jobs).build(scen_files(d["property"]))
        for binary in bins.values():
            if any(s["name"] == d["scenario"] for s in list_scen(binary)):
                r = subprocess.run(replay_cmd(binary, d, d.get("thorough"), ["--trace"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                print(symbolize(binary, r.stdout))
                return r.returncode
        return 2
    prop = next((x for x in a if re.match(r"C\d\d$", x)), None)
    if not prop:
        print(__doc__)
        return 2
    return check(prop, thorough, only, jobs, "-v" in a)


if __name__ == "__main__":
    sys.exit(main())
