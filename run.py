#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough] [--replay FILE]

Builds the explorer of property ID from /repo's working tree and runs it over its bounded space.
exit 0: held on everything explored; exit 1 + VIOLATION line(s): broken; anything else: the check itself failed.
"""
import sys, os, json, subprocess, tempfile, shutil, time, re, argparse

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GENCPP_REPO", "/repo")
MC = os.path.join(VERIF, "mc")

BASE = ["clang++-18", "-std=c++17", "-fno-exceptions", "-g1", "-w", "-fdelayed-template-parsing",
        "-D_WIN32", "-D_WIN64", "-D__int64=long", "-DGEN_STATIC_LINK", "-DGEN_TIME", "-DGEN_BUILD_DEBUG=1",
        "-include", os.path.join(MC, "shim/prelude.h"), "-I" + os.path.join(MC, "shim"), "-I" + MC,
        "-I" + os.path.join(REPO, "base"), "-I" + os.path.join(REPO, "base/auxiliary"), "-I" + REPO]
SAN = ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]
FAST = ["-O2"]

sys.path.insert(0, VERIF)
import checks_table, genlibs
CHECKS = checks_table.CHECKS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build(cid, cfg, work, name, extra, more=[]):
    src = os.path.join(MC, "checks", cfg.get("src", cid + ".cpp"))
    exe = os.path.join(work, name)
    opt = FAST if cfg.get("fast") else SAN
    objs = []
    procs = []
    for s in [src, os.path.join(MC, "winshim.cpp")]:
        o = exe + "." + os.path.basename(s) + ".o"
        procs.append((s, subprocess.Popen(BASE + opt + extra + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        objs.append(o)
    for s, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            sys.stdout.write(out[-6000:])
            raise SystemExit("run.py: %s does not compile against the working tree" % s)
    r = sh(["clang++-18"] + opt + objs + more + ["-o", exe, "-lpthread"])
    if r.returncode:
        sys.stdout.write(r.stdout[-4000:]); raise SystemExit("run.py: link failed")
    return exe

def libraries(cfg, work):
    """the objects of gencpp's libraries, generated from the working tree, for the checks which compare them"""
    if not cfg.get("libs"): return []
    return genlibs.compile_libs(genlibs.generate(REPO, MC, work), MC, SAN)

def explore(exe, rundir, args, timeout):
    os.makedirs(rundir, exist_ok=True)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:log_path=%s/asan:handle_sigill=0:allocator_may_return_null=1:hard_rss_limit_mb=3500:quarantine_size_mb=8:detect_stack_use_after_return=0" % rundir
    try:
        return subprocess.run([exe, "--dir", rundir] + args, env=env, timeout=timeout, stdout=subprocess.PIPE, text=True, errors="replace", cwd=rundir)
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-9", "-f", exe])
        raise SystemExit("run.py: explorer did not finish in time")

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--keep", action="store_true"); ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    cid = a.id
    cfg = CHECKS[cid]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = tempfile.mkdtemp(prefix="gencpp-mc-%s-" % cid)
    try:
        variants = cfg.get("variants") or [{"name": "main"}]
        if a.replay:
            rp = json.load(open(a.replay))
            v = next(x for x in variants if x["name"] == rp["variant"])
            exe = build(cid, {**cfg, **v}, work, "x", v.get("defines", []), libraries(cfg, work))
            r = explore(exe, os.path.join(work, "r"), ["--case", str(rp["case"])] + (["--thorough"] if rp["tier"] == "thorough" else []), 300)
            sys.stdout.write(r.stdout)
            hit = False
            for l in open(os.path.join(work, "r", "violations.jsonl")):
                print(l.strip()); hit = True
            for f in os.listdir(os.path.join(work, "r")):
                if f.startswith("asan."): sys.stdout.write(open(os.path.join(work, "r", f)).read()[:4000])
            return 1 if hit else 0
        known = {}
        for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]:
            if k["property"] == cid and k.get("status") == "known": known[k["key"]] = k
        tot = dict(executions=0, transitions=0, states=0, outcomes=0, traces=0, fatal=0, crashes=0, states_dropped=0)
        samples, per_variant, viol, stopped = [], {}, [], 0
        budget_all = a.budget or (cfg.get("budget", 560) if tier == "quick" else cfg.get("thorough_budget", 3000))
        exes = []
        try: more = libraries(cfg, work)
        except genlibs.Broken as e:   # a generator ends in an error, or writes something that is no library
            print("%s" % e); tot["executions"] += 1; variants = []
            viol.append({"key": "the libraries are generated and compile", "detail": str(e), "variant": "main", "case": 0})
        for v in variants:
            if v.get("tier") and v["tier"] != tier: continue
            exes.append((v, build(cid, {**cfg, **v}, work, v["name"], v.get("defines", []), more)))
        build_s = time.time() - t0
        for n, (v, exe) in enumerate(exes):
            left = (budget_all - (time.time() - t0)) / (len(exes) - n)
            rd = os.path.join(work, "run-" + v["name"])
            r = explore(exe, rd, ["--jobs", "8", "--budget", "%.0f" % max(left, 20)] + (["--thorough"] if tier == "thorough" else []), max(left, 20) + 250)
            st = json.load(open(os.path.join(rd, "stats.json")))
            names = [l.strip() for l in open(os.path.join(rd, "counters"))] if os.path.exists(os.path.join(rd, "counters")) else []
            pv = {k: st[k] for k in ("executions", "transitions", "states", "outcomes", "traces", "fatal", "crashes", "wall")}
            for i, nm in enumerate(names):
                if nm: pv[nm] = st["counters"][i]
            per_variant[v["name"]] = pv
            for k in tot: tot[k] += st.get(k, 0)
            stopped |= st["stopped"]
            for f in sorted(os.listdir(rd)):
                if f.startswith("samples."):
                    samples += [l.rstrip("\n") for l in open(os.path.join(rd, f), errors="replace")][:3]
            print("[%s/%s] %s" % (cid, v["name"], r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "(no output)"))
            seen = set()
            vf = os.path.join(rd, "violations.jsonl")
            hangs = 0
            for l in open(vf, errors="replace"):
                x = json.loads(l)
                if x["key"] in seen: continue
                seen.add(x["key"])
                if x["key"].startswith("hang: "):
                    # a hang is reported only when it repeats alone, with a longer limit
                    hangs += 1
                    if hangs > 3: continue
                    rr = explore(exe, os.path.join(work, "re-%d" % hangs), ["--case", str(x["case"]), "--budget", "60"] + (["--thorough"] if tier == "thorough" else []), 240)
                    if rr.returncode != 0: hangs = 3   # confirmed
                    else: print("run.py: not repeated alone, dropped: " + x["key"][:200]); continue
                x["variant"] = v["name"]; viol.append(x)
        evd = os.path.join(VERIF, "evidence"); os.makedirs(evd, exist_ok=True)
        for f in os.listdir(evd):
            if f.startswith(cid + ".replay"): os.unlink(os.path.join(evd, f))
        fresh, nk = [], 0
        for x in viol:
            k = known.get(x["key"])
            if k: nk += 1; print("KNOWN-FINDING: property=%s %s" % (cid, k.get("what", x["key"])))
            else: fresh.append(x)
        missing = set(known) - {x["key"] for x in viol}
        for k in sorted(missing): print("note: known finding did not show in this run: " + k)
        for i, x in enumerate(fresh[:25]):
            p = os.path.join(evd, "%s.replay-%d.json" % (cid, i + 1))
            json.dump({"property": cid, "variant": x["variant"], "case": x["case"], "tier": tier, "key": x["key"], "detail": x["detail"],
                       "replay": "python3 /verif/run.py %s --replay %s" % (cid, p)}, open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (cid, p))
            print("    key: %s\n    %s" % (x["key"][:600], x["detail"][:900]))
        if len(fresh) > 25: print("    ... and %d more" % (len(fresh) - 25))
        wall = time.time() - t0
        ev = {"property": cid, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["traces"],
                           "samples": samples[:24] or ["(none)"], "executions": tot["executions"], "distinct_outcomes": tot["outcomes"],
                           "fatal_paths": tot["fatal"], "rule": cfg["bound"], "exhaustive": not stopped and tot["states_dropped"] == 0,
                           "budget_reached": bool(stopped), "per_variant": per_variant, "build_s": round(build_s, 1),
                           "known_findings_seen": nk},
              "assumptions": cfg.get("assumptions", []) + checks_table.ASSUME, "wall_s": round(wall, 2), "violations": len(fresh)}
        json.dump(ev, open(os.path.join(evd, cid + ".json"), "w"), indent=1)
        if tot["executions"] == 0: raise SystemExit("run.py: nothing was explored")
        if stopped: print("note: time budget reached before the bound was completed")
        print("%s %s: %d executions, %d states, %d transitions, %d new violations, %d known, %.1fs" % (cid, tier, tot["executions"], tot["states"], tot["transitions"], len(fresh), nk, wall))
        return 1 if fresh else 0
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
        else: print("kept " + work)

if __name__ == "__main__":
    sys.exit(main())
