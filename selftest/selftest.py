#!/usr/bin/env python3
"""Validates the exploration engine itself (run by setup_cmd and by hand):
known outcome sets and verdicts, and cached == uncached outcome sets for all small programs."""
import itertools, json, os, subprocess, sys, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import run_check as rc

def run(b, args, prog=None):
    env = dict(os.environ)
    if prog is not None:
        env["MC_PROG"] = prog
    r = subprocess.run([b, "--run"] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=600)
    j = None
    for l in r.stdout.splitlines():
        if l.startswith("{"):
            j = json.loads(l)
    if j is None:
        raise SystemExit("self-test: no result for %s %s\n%s" % (args, prog, r.stdout[-2000:]))
    return j

KNOWN = {
    "sb_sc": {"01", "10", "11"}, "sb_relaxed": {"00", "01", "10", "11"}, "mp_ok": {"seen42", "no"},
    "stale_mutex": {"00", "01", "11"}, "stale_read_read": {"00", "01", "11"}, "stale_same": {"00", "01", "02", "11", "12", "22"},
    "interleavings": {"12/34", "13/24", "14/23", "23/14", "24/13", "34/12"}, "signal_any": {"first1", "first2"}, "local_static": {"89", "98"}, "tas_lock": {"12", "21"}, "rwlock": {"00", "10", "01", "11"}, "xchg_lock": {"12", "21"}, "cas_lock": {"12", "21"},
}
BAD = {"bad_mp_relaxed": "race", "bad_race": "race", "bad_abba": "deadlock", "bad_lost_wakeup": "deadlock", "bad_spurious": "oracle",
       "bad_uaf": "use-after-free", "bad_leak": "leak", "bad_double_free": None, "bad_livelock": "livelock", "bad_after_yield": "oracle", "bad_timeout": "oracle",
       "bad_tas_lock": "no-progress", "bad_tas_relaxed": "race", "bad_rwlock": "race"}

def main():
    full = "--full" in sys.argv
    b = rc.Builder(8)
    bins = b.build([os.path.join(HERE, "litmus.cpp")])
    if not bins:
        raise SystemExit(str(b.errors))
    exe = list(bins.values())[0]
    bad = 0
    for n, want in KNOWN.items():
        j = run(exe, ["SELF." + n])
        got = set(j["outcomes"])
        if got != want or j.get("violation"):
            bad += 1
            print("FAIL", n, sorted(got), "expected", sorted(want), j.get("violation"))
    for n, kind in BAD.items():
        j = run(exe, ["SELF." + n])
        v = j.get("violation")
        if not v or (kind and kind not in v["kind"]):
            bad += 1
            print("FAIL", n, "expected", kind, "got", v)
    # cached == uncached
    ops = "xXacYltwWsSpgGozT"
    progs = ["/".join(p) for p in itertools.product(ops, ops)]
    two = ["".join(p) for p in itertools.product("Xaltpgws", repeat=2)]
    progs += ["/".join(p) for p in itertools.product(two, two)][:: 1 if full else 17]
    three = ["".join(p) for p in itertools.product("Xaltpgwo", repeat=3)]
    progs += [three[i] + "/" + three[(i * 37 + k) % len(three)] for i in range(0, len(three), 1 if full else 7) for k in range(2)]
    progs += ["/".join(p) for p in itertools.product("XlwStga", repeat=3)][:: 1 if full else 3]
    def one(p):
        for bound in ("2", "-1"):
            # MC_ENV: one spurious wake-up or early time-out
            for env in ("0", "1"):
                a = run(exe, ["SELF.prog", "--bound", bound, "--env", env], p)
                c = run(exe, ["SELF.prog", "--bound", bound, "--env", env, "--nocache", "--time", "20"], p)
                va, vc = a.get("violation"), c.get("violation")
                if bool(va) != bool(vc) and (va or c["bound_done"] == c["bound_target"]):
                    return "%s bound %s env %s: cached %s, uncached %s" % (p, bound, env, va, vc)
                if va:
                    if va["kind"] != vc["kind"]:
                        return "%s bound %s env %s: cached %s, uncached %s" % (p, bound, env, va, vc)
                    continue
                A, C = set(a["outcomes"]), set(c["outcomes"])
                done = c["bound_done"] == c["bound_target"] or c["closed"]
                if A != C and (done or C - A):
                    return "%s bound %s env %s: cached-only %s uncached-only %s" % (p, bound, env, A - C, C - A)
        return None
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, progs):
            if r:
                bad += 1
                if bad < 30:
                    print("FAIL", r)
    print("self-test: %d known cases, %d programs explored with and without the state cache, %d failures" % (len(KNOWN) + len(BAD), len(progs), bad))
    return 1 if bad else 0

if __name__ == "__main__":
    sys.exit(main())
