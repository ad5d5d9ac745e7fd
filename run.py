#!/usr/bin/env python3
"""Runs one check: builds the library from /repo's working tree together with
the property's harness, runs the harness, writes the evidence file.

  run.py C01 [--tier quick|thorough] [--replay FILE] [--seed N] [--time S] [--only SUB]

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
"""
import argparse, glob, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, COMMON  # noqa: E402

REPO = os.environ.get("SCN_REPO", "/repo")
BASE = ["-std=c++17", "-DSCN_DISABLE_FAST_FLOAT=1", f"-I{REPO}/include", f"-I{REPO}/src",
        f"-I{HERE}/src", "-w"]
ASAN = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=2048"
TSAN = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=2"
SAN = ["-O0", "-gline-tables-only", "-fsanitize=address,undefined",
       "-fno-sanitize=object-size,function,vptr", "-fno-sanitize-recover=undefined"]


def start_build(pid, cfg, bdir, seed, tier):
    """Starts compiling everything of one check in parallel."""
    cxx = cfg.get("cxx", "clang++")
    flags = BASE + cfg.get("san", SAN) + ["-DSCN_REGEX_BACKEND=%d" % cfg.get("regex", 0)] + cfg.get("flags", [])
    units = [] if "modules" in cfg else [(u, "lib_" + os.path.basename(u)[:-4] + ".o") for u in sorted(glob.glob(f"{REPO}/src/scn/*.cpp"))]
    units.append((f"{HERE}/src/pbt_main.cpp", "pbt_main.o"))
    for s in cfg.get("srcs", [pid.lower() + ".cpp"]):
        units.append((f"{HERE}/src/{s}", s.replace(".cpp", ".o")))
    if "gen" in cfg:
        # sources generated for this run
        for g in cfg["gen"]:
            subprocess.run([sys.executable, f"{HERE}/tools/{g}", str(seed), bdir,
                            str(cfg["gen_n"][0 if tier == "quick" else 1])], check=True)
        flags.append(f"-I{bdir}")
        units += [(f"{bdir}/{s}", s.replace(".cpp", ".o")) for s in cfg["gen_srcs"]]
    procs = []
    for src, obj in units:
        log = open(f"{bdir}/{obj}.log", "w")
        procs.append((src, obj, subprocess.Popen(
            [cxx] + flags + (cfg.get("std", {}).get(os.path.basename(src), [])) + ["-c", src, "-o", f"{bdir}/{obj}"],
            stdout=log, stderr=log)))
    # the library in other build configurations, as modules that the harness loads
    mods = []
    for name, (mcxx, mflags) in cfg.get("modules", {}).items():
        mf = BASE + (cfg.get("san", SAN) if mcxx == cxx else []) + ["-DSCN_REGEX_BACKEND=0", "-fPIC", "-fvisibility=hidden"] + mflags
        ps = []
        for src in sorted(glob.glob(f"{REPO}/src/scn/*.cpp")) + [f"{HERE}/src/{s}" for s in cfg["module_srcs"]]:
            obj = f"mod_{name}_{os.path.basename(src)[:-4]}.o"
            log = open(f"{bdir}/{obj}.log", "w")
            ps.append((obj, subprocess.Popen([mcxx] + mf + ["-c", src, "-o", f"{bdir}/{obj}"], stdout=log, stderr=log)))
        mods.append((name, mcxx, mf, mflags, ps))
    return cxx, flags, procs, mods


class BrokenModule(Exception):
    """A configuration does not build, though the default one does."""


def finish_modules(bdir, mods):
    paths = []
    for name, mcxx, mf, mflags, ps in mods:
        bad = [obj for obj, p in ps if p.wait() != 0]
        so = f"{bdir}/mod_{name}.so"
        r = None
        if not bad:
            r = subprocess.run([mcxx] + mf + ["-shared"] + [f"{bdir}/{o}" for o, _ in ps] + ["-o", so],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if bad or r.returncode != 0:
            text = open(f"{bdir}/{bad[0]}.log").read() if bad else r.stdout
            if not paths:
                sys.stderr.write(f"build of the default configuration failed:\n{text[-4000:]}")
                sys.exit(2)
            for *_, more in mods:
                for _, p in more:
                    p.wait()
            err = [x for x in text.splitlines() if "error" in x or "undefined" in x] or text.splitlines()
            raise BrokenModule(f"the library does not build with {mcxx} {' '.join(mflags)}: {err[0] if err else ''}")
        paths.append(f"{name}={so}")
    os.environ["PBT_MODULES"] = ";".join(paths)


def finish_build(pid, cfg, bdir, started):
    """Links; returns the binary."""
    cxx, flags, procs, mods = started
    bad = False
    for src, obj, p in procs:
        if p.wait() != 0:
            bad = True
            sys.stderr.write(f"build of {src} failed:\n" + open(f"{bdir}/{obj}.log").read()[-4000:])
    if bad:
        sys.exit(2)
    exe = f"{bdir}/{pid.lower()}"
    r = subprocess.run([cxx] + flags + [f"{bdir}/{o}" for _, o, _ in procs] + ["-o", exe] + cfg.get("libs", []),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write("link failed:\n" + r.stdout[-4000:])
        sys.exit(2)
    if mods:
        finish_modules(bdir, mods)
    return exe


def explore(exe, cfg, bdir, replay, seed, secs, tier, only):
    for attempt in range(2):
        out = f"{bdir}/out.json"
        cmd = [exe, "--seed", str(seed), "--workers", str(cfg.get("workers", 8)), "--time", str(secs),
               "--max-time", str(secs + (240 if tier == "quick" else 3600)),
               "--min-cases", str(cfg.get("min_cases", 0)), "--dir", bdir, "--out", out, "--replay-out", replay]
        if only:
            cmd += ["--only", only]
        env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="print_stacktrace=1", TSAN_OPTIONS=TSAN, LC_ALL="C", TZ=cfg.get("tz", "UTC"))
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, text=True, errors="replace")
        sys.stdout.write(r.stdout[:20000])
        if r.returncode not in (0, 1) or not os.path.exists(out):
            sys.stderr.write(f"harness ended with {r.returncode}\n")
            sys.exit(2)
        d = json.load(open(out))
        if d["violations"] or not d["unreproduced"]:
            break
        print("note: an unreproducible failure ended the run early; searching again:", d["unreproduced_text"][:2000])
        seed += 1000003
    return d


def write_evidence(pid, cfg, tier, seed, t0, tb, tot):
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["evaluations"], "distinct_nontrivial": tot["distinct_nontrivial"],
            "rule": cfg["rule"], "samples": tot["samples"][:25],
            "nontrivial": tot["nontrivial"], "discarded": tot["discarded"],
            "classes": tot["labels"], "per_check": tot["per_sub"], "unreproduced": tot.get("unreproduced", 0),
            "build_s": round(tb, 1),
        },
        "assumptions": [COMMON] + cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": tot["violations"],
    }
    with open(f"{HERE}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)


def broken(pid, cfg, tier, seed, t0, what, replaying):
    print(f"FAIL {what}")
    if replaying:
        sys.exit(1)
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    os.makedirs(f"{HERE}/replays", exist_ok=True)
    rp = f"{HERE}/replays/{pid}.replay"
    with open(rp, "w") as f:
        f.write(f"property {pid}\nbuild\n---\n{what}\n")
    write_evidence(pid, cfg, tier, seed, t0, time.time() - t0, dict(evaluations=0, distinct_nontrivial=0, nontrivial=0, discarded=0, violations=1, samples=[what], per_sub={}, labels={}, knowns={}))
    print(f"VIOLATION property={pid} replay={rp}")
    sys.exit(1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--time", type=float)
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true", help="keep and reuse nothing, but leave the build directory")
    a = ap.parse_args()
    pid, tier = a.id, a.tier if a.tier in ("quick", "thorough") else "quick"
    cfg = CHECKS[pid]
    if a.replay and cfg.get("gen"):
        # the choices refer to what was generated from that seed and tier
        for line in open(a.replay, errors="replace"):
            if line.startswith("generated from seed "):
                a.seed, tier = int(line.split()[3]), line.split()[5]
    t0 = time.time()
    bdir = f"{HERE}/build/{pid}"
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    # a check may run the same harness in several build variants of the library
    variants = cfg.get("variants", [dict(name="")])
    if a.replay and len(variants) > 1:
        variants = [v for v in variants if f".{v['name']}.replay" in a.replay]
    runs = []
    for v in variants:
        c = dict(cfg, **v)
        c["flags"] = cfg.get("flags", []) + v.get("flags", [])
        d = f"{bdir}/{v['name']}" if v["name"] else bdir
        os.makedirs(d, exist_ok=True)
        runs.append((v["name"], c, d, start_build(pid, c, d, a.seed, tier)))
    try:
        runs = [(n, c, d, finish_build(pid, c, d, st)) for n, c, d, st in runs]
    except BrokenModule as e:
        return broken(pid, cfg, tier, a.seed, t0, str(e), a.replay)
    tb = time.time() - t0
    env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="print_stacktrace=1", TSAN_OPTIONS=TSAN, LC_ALL="C", TZ=cfg.get("tz", "UTC"))
    if a.replay:
        _, _, d, exe = runs[0]
        r = subprocess.run([exe, "--dir", d, "--replay", os.path.abspath(a.replay)], env=env)
        sys.exit(r.returncode)
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    os.makedirs(f"{HERE}/replays", exist_ok=True)
    if a.time:
        secs = a.time
    else:
        secs = cfg.get("quick_s", 18) if tier == "quick" else cfg.get("thorough_s", 600)
    tot, replay = None, None
    for name, c, d, exe in runs:
        rp = f"{HERE}/replays/{pid}{'.' + name if name else ''}.replay"
        if os.path.exists(rp):
            os.remove(rp)
        res = explore(exe, c, d, rp, a.seed, secs * c.get("share", 1), tier, a.only)
        if name:
            res["samples"] = [f"[{name}] {x}" for x in res["samples"]]
            res["per_sub"] = {f"{name}/{k}": n for k, n in res["per_sub"].items()}
            res["labels"] = {f"{name}/{k}": n for k, n in res["labels"].items()}
        if tot is None:
            tot = res
        else:
            for k in ("evaluations", "distinct_nontrivial", "nontrivial", "discarded", "violations", "unreproduced"):
                tot[k] += res[k]
            tot["samples"] = tot["samples"][:13] + res["samples"][:12]
            for k in ("per_sub", "labels", "knowns"):
                for x, n in res[k].items():
                    tot[k][x] = tot[k].get(x, 0) + n
        if res["violations"] and not replay:
            replay = rp
            if cfg.get("gen"):
                with open(rp, "a") as f:
                    f.write(f"\ngenerated from seed {a.seed} tier {tier}\n")
            break
    write_evidence(pid, cfg, tier, a.seed, t0, tb, tot)
    for k, n in sorted(tot["knowns"].items()):
        print(f"KNOWN-FINDING: property={pid} {k} (met {n} times)")
    print(f"{pid} {tier}: {tot['evaluations']} cases, {tot['distinct_nontrivial']} distinct non-trivial, "
          f"{time.time() - t0:.0f} s (build {tb:.0f} s)")
    if not a.keep:
        shutil.rmtree(bdir, ignore_errors=True)
    if tot["violations"]:
        print(f"VIOLATION property={pid} replay={replay}")
        sys.exit(1)
    if tot["evaluations"] == 0 or tot["distinct_nontrivial"] == 0:
        sys.stderr.write("nothing was explored\n")
        sys.exit(2)
    sys.exit(0)


main()
