#!/usr/bin/env python3
"""Decides one property (or all) of /repo with the symbolic executor in /verif/engine.
usage: check.py <property id> [--tier quick|thorough]   |   check.py --setup   |   check.py --list"""
import concurrent.futures as cf, fcntl, glob, json, os, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
B = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
REPO = "/repo"
sys.path.insert(0, HERE)
from props import PROPS, GROUPS  # noqa: E402

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", RUSTC_BOOTSTRAP="1")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"): ENV.pop(k, None)
IRFLAGS = ("--cfg rcp_verif --cfg vp_ir --emit=llvm-ir,link -C codegen-units=1 -C opt-level=2 -C overflow-checks=on "
           "-C debug-assertions=on -C panic=abort -C no-vectorize-loops -C no-vectorize-slp -Zshare-generics=no -Zub-checks=no -A warnings")
RUNFLAGS = "--cfg rcp_verif -C overflow-checks=on -C debug-assertions=on -A warnings"


class Trouble(Exception):
    pass


def sh(cmd, cwd, env, what, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode: raise Trouble("%s failed:\n%s" % (what, p.stdout[-6000:]))
    return p.stdout


def engine():
    sh(["cargo", "build", "--release", "--offline", "--target-dir", B + "/engine"], HERE + "/engine", ENV, "building the engine")
    return B + "/engine/release/symex"


def fresh_copy(crate):
    """cargo may want to touch the lock file: work on a copy of the harness crates"""
    for d in ("harness", "stubs"):
        subprocess.run(["cp", "-a", "--no-target-directory", os.path.join(HERE, d), os.path.join(B, d)], check=True)
    return os.path.join(B, crate)




def forget(t, crates):
    """cargo must compile these again, whatever the time stamps say"""
    for c in crates:
        for f in glob.glob(t + "/.fingerprint/%s-*" % c): shutil.rmtree(f)
        for f in glob.glob(t + "/deps/%s*" % c) + glob.glob(t + "/deps/lib%s*" % c): os.unlink(f)


def build_ir(group):
    g = GROUPS[group]
    t = B + "/ir-" + g.get("dir", group)
    cmd = ["cargo", "build", "--release", "--offline", "--target-dir", t]
    env = dict(ENV, RUSTFLAGS=IRFLAGS, RCP_VERIF_HARNESS=os.path.join(B, "harness/h", group + ".rs"))
    if g.get("std"):  # the standard library from source: its formatting code is executed symbolically as well
        cmd += ["-Zbuild-std=std,panic_abort", "--target", "x86_64-unknown-linux-gnu"]
        out = t + "/x86_64-unknown-linux-gnu/release"
        forget(out, g["crates"])
    else:
        out = t + "/release"
        shutil.rmtree(out, ignore_errors=True)
    sh(cmd, fresh_copy(g["ir"]), env, "building %s for symbolic execution" % group)
    lls = sorted(glob.glob(out + "/deps/*.ll"))
    if g.get("std"): lls = [l for l in lls if os.path.basename(l).split("-")[0] in g["use"]]
    if not lls: raise Trouble("no IR was produced")
    return lls


def build_run(group):
    g = GROUPS[group]
    t = B + "/run-" + g.get("dir", group)
    shutil.rmtree(t + "/debug", ignore_errors=True)
    env = dict(ENV, RUSTFLAGS=RUNFLAGS, RCP_VERIF_HARNESS=os.path.join(B, "harness/h", group + ".rs"))
    sh(["cargo", "build", "--offline", "--target-dir", t], fresh_copy(g["run"]), env, "building %s for native replay" % group)
    return t + "/debug/" + g["bin"]


# the command line of the native replay (for programs that read theirs): two existing files with different extensions
ARGS = [os.path.join(HERE, "props.py"), os.path.join(HERE, "MANIFEST.json")]


def replay(binary, cases):
    """cases: [(entry, [values])] -> list of dicts"""
    res = []
    for i, (e, vals) in enumerate(cases):  # one process each: a crash affects one case only
        d = {"asserts": [], "trace": [], "reach": [], "panic": None, "assume": False, "end": False}
        try:
            p = subprocess.run([binary] + ARGS, input="%d %s %s\n" % (i, e, " ".join(str(v) for v in vals)), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
            for l in p.stdout.splitlines():
                w = l.split(" ", 1)
                if w[0] == "ASSERT": d["asserts"].append(int(w[1]))
                elif w[0] == "TRACE": d["trace"].append(w[1])
                elif w[0] == "REACH": d["reach"].append((int(w[1]), len(d["trace"])))
                elif w[0] == "PANIC": d["panic"] = w[1]
                elif w[0] == "ASSUME": d["assume"] = True
                elif w[0] == "END": d["end"] = True
            if not d["end"] and d["panic"] is None: d["panic"] = "process ended with %d %s" % (p.returncode, p.stderr[-300:])
        except subprocess.TimeoutExpired:
            d["panic"] = "no termination within 120 s"
        res.append(d)
    return res


def concretise(binary, entry, vals):
    """an abstract counterexample may not fail on its own values: look for values near it that do"""
    try: p = subprocess.run([binary] + ARGS, input="VARY4000 %s %s\n" % (entry, " ".join(str(v) for v in vals)), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
    except subprocess.TimeoutExpired: return None
    for l in p.stdout.splitlines():
        if l.startswith("FOUND"): return [int(x) for x in l.split()[1:]]
    return None


def confirm(binary, e, v):
    """does a reported violation happen on the real code? -> (bool, violation, native run)"""
    vals = [x[2] for x in v["inputs"]]
    def run(vals, kind, n):
        r = replay(binary, [(e["entry"], vals)])[0]
        return (bool(r["panic"]) or kind == "assert" and int(n) in r["asserts"]), r
    kind, _, n = v["id"].partition(":")
    hit, r = run(vals, kind, n)
    if hit: return True, v, r
    other = concretise(binary, e["entry"], vals)
    if other is None: return False, v, r
    r = replay(binary, [(e["entry"], other)])[0]
    if not (r["panic"] or r["asserts"]): return False, v, r
    v = dict(v, inputs=[["in%d" % i, 64, str(x)] for i, x in enumerate(other)])
    if r["asserts"] and not (kind == "assert" and int(n) in r["asserts"]): v["id"] = "assert:%d" % r["asserts"][0]
    return True, v, r


def known():
    r = []
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("known: "):  # known: property=C26 entry=h_x id=assert:3 :: text
                head, text = l[7:].split(" :: ", 1)
                kv = dict(x.split("=", 1) for x in head.split())
                r.append((kv["property"], kv["entry"], kv["id"], text.strip()))
    return r


def git_state():
    p = subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return p.stdout.strip()


def check(pid, tier):
    t0 = time.time()
    P = PROPS[pid]
    entries = list(P["entries"]) + (list(P.get("thorough", [])) if tier == "thorough" else [])
    if tier == "thorough": # deeper variants replace their quick counterparts
        gone = {x for e in entries for x in e.get("replaces", [])}
        entries = [e for e in entries if e["entry"] not in gone]
    budget = 780 if tier == "quick" else int(os.environ.get("VERIF_BUDGET", "3000"))
    symex = engine()
    groups = sorted({e.get("group", P["group"]) for e in entries})
    lls, bins = {}, {}
    for g in groups:
        lls[g] = build_ir(g)
        bins[g] = build_run(g)
    work = os.path.join(B, "work-" + pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)

    def one(e):
        r = run(e, e.get("opts", []), "")
        def settles(r):
            if r[2] or r[1]["errors"]: return False
            return not r[1]["violations"] or any(confirm(bins[e.get("group", P["group"])], e, v)[0] for v in r[1]["violations"])
        if settled.is_set() or settles(r): return r
        # an abstract counterexample that is none, or no answer: once more with (without) merging of paths
        o = e.get("opts", [])
        o = [x for x in o if x != "--no-merge"] if "--no-merge" in o else o + ["--no-merge"]
        if budget - (time.time() - t0) < 30: return r
        r2 = run(e, o, "-2")
        return r2 if settles(r2) else r

    def run(e, opts, suffix):
        g = e.get("group", P["group"])
        d = os.path.join(work, e["entry"] + suffix); os.makedirs(d)
        out = os.path.join(d, "out.json")
        lim = e.get("time", 420)
        lim = max(20, min(lim if tier == "quick" else max(lim, 2400), int(budget - (time.time() - t0))))
        cmd = [symex] + [x for l in lls[g] for x in ("--ll", l)] + ["--entry", e["entry"], "--dir", d, "--out", out, "--time", str(lim), "--max-viol", "6"] + opts
        log = open(os.path.join(d, "log"), "w+")
        p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        end, seen, vf = time.time() + lim + 180, 0, os.path.join(d, "viol.txt")
        def stop():  # the executor and the solvers it started
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait()
        while p.poll() is None:
            time.sleep(0.1)
            if os.path.exists(vf):  # a confirmed, unlisted violation settles the property: no need to wait for the rest
                lines = open(vf).read().split("\n")[:-1]
                for l in lines[seen:]:
                    w = l.split()
                    v = {"id": w[0], "inputs": [[None, None, x] for x in w[1:]]}
                    if not settled.is_set() and confirm(bins[g], e, v)[0] and not [x for x in kf if x[0] == pid and x[1] == e["entry"] and x[2] == v["id"]]:
                        settled.set()
                        early.append((e, v))
                seen = len(lines)
            if settled.is_set() and "t" not in stop_at: stop_at["t"] = time.time() + 10
            if time.time() > min(end, stop_at.get("t", end)):
                stop()
                return e, None, "stopped" if "t" in stop_at else "the executor did not stop in time"
        stop()
        log.seek(0)
        if not os.path.exists(out): return e, None, "executor: rc %d %s" % (p.returncode, log.read()[-2000:])
        return e, json.load(open(out)), None

    kf, settled, early, stop_at = known(), threading.Event(), [], {}
    order = sorted(entries, key=lambda e: -e.get("cost", 1))
    with cf.ThreadPoolExecutor(8) as ex: results = list(ex.map(one, order))

    trouble, viols, knowns, validated, samples, funcs, seen_ids = [], [], [], 0, [], set(), {}
    tot = {k: 0 for k in ("instructions", "forks", "merges", "paths_completed", "queries", "hard_queries", "asserts", "asserts_by_rewriting", "assert_queries", "assumes", "nodes")}
    secs, per_entry, decided = 0.0, [], {}
    for e, j, err in results:
        g = e.get("group", P["group"])
        if err: trouble.append("%s: %s" % (e["entry"], err)); continue
        for k in tot: tot[k] += j[k]
        for k, v in j["decided_by"].items(): decided[k] = decided.get(k, 0) + v
        secs += j["solver_seconds"]
        funcs |= set(j["functions"])
        per_entry.append({"entry": e["entry"], "bound": e["bound"], "seconds": j["seconds"], "symbolic_instructions": j["instructions"], "asserts": j["asserts"], "queries": j["queries"], "solver_seconds": j["solver_seconds"]})
        known_here = [k for k in kf if k[0] == pid and k[1] == e["entry"]]
        for er in j["errors"]: trouble.append("%s: %s" % (e["entry"], er))
        # witnesses: the symbolic run and the native run must agree
        wit = j["witnesses"]
        if not wit and not j["violations"]: trouble.append("%s: vacuous (no witness)" % e["entry"])
        for w, r in zip(wit, replay(bins[g], [(e["entry"], [v[2] for v in w["inputs"]]) for w in wit])):
            at = [n for i, n in r["reach"] if i == w["id"]]
            if not at and e.get("havoc"): continue  # a witness of the abstraction only
            if not at:
                if not j["violations"]: trouble.append("%s: witness %d does not reach its point natively: %s" % (e["entry"], w["id"], r["panic"] or r["asserts"] or "assumption"))
                continue
            if r["trace"][:len(w["trace"])] != w["trace"] and e.get("trace", True) and not e.get("havoc"): trouble.append("%s: witness %d: native trace %s, symbolic %s" % (e["entry"], w["id"], r["trace"][:40], w["trace"][:40])); continue
            validated += 1
            if len(samples) < 12: samples.append({"entry": e["entry"], "reach": w["id"], "inputs": [v[2] for v in w["inputs"]][:40], "observed": w["trace"][:40]})
        if not j["violations"] and not j["errors"]:
            need = set(e.get("reach", []))
            if need - {w["id"] for w in wit}: trouble.append("%s: points never reached: %s" % (e["entry"], sorted(need - {w["id"] for w in wit})))
            if j["asserts"] == 0 and not e.get("no_asserts"): trouble.append("%s: no assertion was checked" % e["entry"])
        # violations: must reproduce on the real code
        for v in j["violations"]:
            hit, v, r = confirm(bins[g], e, v)
            if not hit:
                trouble.append("%s: %s (%s) did not reproduce natively on %s: %s" % (e["entry"], v["id"], v["msg"], [x[2] for x in v["inputs"]][:20], r)); continue
            k = [x for x in known_here if x[2] == v["id"]]
            if k: knowns.append(k[0][3]); continue
            n = v["id"].partition(":")[2]
            viols.append({"property": pid, "entry": e["entry"], "group": g, "id": v["id"], "msg": e.get("asserts", {}).get(n) or v["msg"], "bound": e["bound"], "inputs": v["inputs"], "native": {"failed_assertions": r["asserts"], "panic": r["panic"], "trace": r["trace"][:200]}})
    if early and not viols:  # found by an executor that was then stopped
        for e, v in early:
            hit, v, r = confirm(bins[e.get("group", P["group"])], e, v)
            viols.append({"property": pid, "entry": e["entry"], "group": e.get("group", P["group"]), "id": v["id"], "msg": "assertion fails" if v["id"].startswith("assert") else "panics", "bound": e["bound"], "inputs": v["inputs"], "native": {"failed_assertions": r["asserts"], "panic": r["panic"], "trace": r["trace"][:200]}})
    os.makedirs(HERE + "/evidence", exist_ok=True)
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": P.get("level", "model_checking"),
          "coverage": {
              "states": tot["paths_completed"] + tot["forks"], "transitions": tot["instructions"], "traces_validated_against_impl": validated, "samples": samples,
              "what": "states: symbolic states created by forking plus completed paths; transitions: LLVM instructions executed symbolically; traces: solver witnesses replayed natively with identical observed values",
              "entries": per_entry, "functions_encoded": sorted(f for f in funcs if "verif::" not in f and not f.startswith("h_"))[:200], "functions_encoded_count": len(funcs),
              "assertions_decided": tot["asserts"], "assertions_by_rewriting": tot["asserts_by_rewriting"], "assertions_by_solver": tot["assert_queries"], "queries": tot["queries"], "one_shot_queries": tot["hard_queries"], "solver_seconds": round(secs, 2), "decided_by": decided,
              "known_findings": sorted(set(knowns)), "repo_head": git_state(), "inconclusive": trouble[:20]},
          "assumptions": P.get("assumptions", []) + GROUPS[P["group"]].get("assumptions", []) + COMMON,
          "wall_s": round(wall, 2), "violations": len(viols)}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for k in sorted(set(knowns)): print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if viols:
        os.makedirs(HERE + "/replays", exist_ok=True)
        for n, v in enumerate(viols):
            f = "%s/replays/%s-%d.json" % (HERE, pid, n)
            json.dump(v, open(f, "w"), indent=1)
            print("  %s %s: %s; inputs %s" % (v["entry"], v["id"], v["msg"], [x[2] for x in v["inputs"]][:30]))
            print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    if trouble:
        print("INCONCLUSIVE property=%s" % pid)
        for t in trouble[:20]: print("  " + t[:3000])
        return 2
    print("OK property=%s (%s): %d assertions over %d entries, %d queries, %.1f s of solver time, %d witnesses replayed natively, %.1f s" % (pid, tier, tot["asserts"], len(per_entry), tot["queries"], secs, validated, wall))
    return 0


COMMON = ["rustc's LLVM IR at -O2 (overflow checks and debug assertions on) stands for the source; no memory exhaustion",
          "floating-point operations are uninterpreted functions that respect identical arguments unless an entry says exact; counterexamples are confirmed natively"]


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        os.makedirs(B, exist_ok=True)
        engine()
        return 0
    if a == ["--list"]:
        print(" ".join(PROPS)); return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    os.makedirs(B, exist_ok=True)
    lock = open(B + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    rc = 0
    for pid in a:
        try: r = check(pid, tier)
        except Trouble as e:
            print("INCONCLUSIVE property=%s\n%s" % (pid, e)); r = 2
        rc = max(rc, r)
    return rc


sys.exit(main())
