#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property.

Compiles /repo's current sources with the symbolic instrumentation, explores
every path of the property's harnesses (engine/rt.cc; the SMT solver decides
each branch, bound check and assertion), replays counterexamples against a
plain build of the same sources, and writes evidence/<PROPERTY>.json.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import PROPS

REPO = os.environ.get("VS_REPO", "/repo")
ENG = os.path.join(HERE, "build", "engine")
ASAN = "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=256:handle_abort=0:handle_sigfpe=0:handle_sigill=0"
UBSAN_FLAGS = "-fsanitize=shift,integer-divide-by-zero,float-cast-overflow,bounds,signed-integer-overflow,unreachable,return,null,bool,enum,pointer-overflow"


def die(msg):
    print("check error: " + msg)
    sys.exit(3)


def engine():
    stamp = os.path.join(ENG, "stamp")
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(HERE, "engine", "*"))):
        if os.path.isfile(f):
            h.update(open(f, "rb").read())
    want = h.hexdigest()
    if os.path.exists(stamp) and open(stamp).read() == want:
        return
    r = subprocess.run(["bash", os.path.join(HERE, "engine", "build_engine.sh"), ENG], capture_output=True, text=True)
    if r.returncode:
        die("engine build failed: " + r.stderr[-2000:])
    open(stamp, "w").write(want)


def lib_sources():
    src = []
    for root, _, files in os.walk(os.path.join(REPO, "wreport")):
        for f in sorted(files):
            if not f.endswith(".cc"):
                continue
            # not part of what is checked: test programs, benchmarks, Lua glue
            if re.search(r"(-test|-bench|-main|lua|benchmark|testrunner|test-utils)", f) or f in ("tests.cc", "subprocess.cc"):
                continue
            src.append(os.path.join(root, f))
    return sorted(src)


def run_jobs(jobs, env=None):
    def one(cmd):
        r = subprocess.run(cmd, env=env, capture_output=True, text=True)
        return (r.returncode, cmd, r.stderr)
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for rc, cmd, err in ex.map(one, jobs):
            if rc:
                die("compile failed: %s\n%s" % (" ".join(cmd), err[-3000:]))


def build(scratch, harness_src, ub, replay=False):
    inc = os.path.join(scratch, "inc")
    os.makedirs(os.path.join(inc, "wreport"), exist_ok=True)
    open(os.path.join(inc, "config.h"), "w").write('#pragma once\n#define HAS_GETOPT_LONG\n#define PACKAGE_VERSION "verif"\n#define TABLE_DIR "%s/tables"\n' % REPO)
    open(os.path.join(inc, "wreport", "version.h"), "w").write("#pragma once\n#define WREPORT_VERSION_MAJOR 3\n#define WREPORT_VERSION_MINOR 38\n")
    obj = os.path.join(scratch, "replay" if replay else "obj")
    os.makedirs(obj, exist_ok=True)
    san = ["-fsanitize=address"]
    if ub:
        san += [UBSAN_FLAGS, "-fno-sanitize-recover=all"]
    flags = ["-std=c++17", "-O1", "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-w", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS",
             "-fno-omit-frame-pointer", "-I" + inc, "-I" + REPO, "-I" + os.path.join(REPO, "wreport"), "-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "harness")] + san
    plug = [] if replay else ["-fpass-plugin=%s/vspass.so" % ENG]
    env = dict(os.environ, VS_EXTERNALS=os.path.join(ENG, "externals.txt"))
    jobs, objs = [], []
    for i, s in enumerate(lib_sources() + [os.path.join(HERE, "harness", h) for h in harness_src]):
        o = os.path.join(obj, "%d_%s.o" % (i, os.path.basename(s)))
        f = flags
        if s.startswith(HERE) and ub:
            f = [x for x in flags if not x.startswith("-fsanitize=shift") and not x.startswith("-fno-sanitize-recover")]
        jobs.append(["clang++"] + f + plug + ["-c", s, "-o", o])
        objs.append(o)
    jobs.sort(key=lambda j: -os.path.getsize(j[j.index("-c") + 1]))
    if replay:
        o = os.path.join(obj, "replay.o")
        jobs.append(["clang++", "-std=c++17", "-O1", "-w", "-I" + os.path.join(HERE, "engine"), "-c", os.path.join(HERE, "engine", "replay.cc"), "-o", o])
        objs.append(o)
    else:
        o = os.path.join(obj, "models.o")
        jobs.append(["clang", "-O1", "-g1", "-fno-builtin", "-w", "-fsanitize=address", "-D_GNU_SOURCE"] + plug + ["-c", os.path.join(HERE, "engine", "models.c"), "-o", o])
        objs += [o, os.path.join(ENG, "rt.o"), os.path.join(ENG, "expr.o")]
    run_jobs(jobs, env)
    exe = os.path.join(scratch, "replay_exe" if replay else "check_exe")
    r = subprocess.run(["clang++"] + san + ["-g", "-o", exe] + objs + ([] if replay else ["-lz3"]) + ["-lpthread"], capture_output=True, text=True)
    if r.returncode:
        die("link failed: " + r.stderr[-3000:])
    return exe


def known_findings():
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", line)
            if m:
                res.append(m.groups())
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only build the engine")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        engine()
        return 0
    prop, tier = a.property, a.tier
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    engine()
    scratch = tempfile.mkdtemp(prefix="vscheck.")
    try:
        return check(prop, tier, thorough, seed, cfg, scratch, t0, a.only)
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier, thorough, seed, cfg, scratch, t0, only):
    env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="print_stacktrace=0", LC_ALL="C", TZ="UTC",
               WREPORT_TABLES=os.path.join(REPO, "tables"))
    env.pop("WREPORT_EXTRA_TABLES", None)
    builds = {}
    results, viols = [], []
    jobs = os.cpu_count() or 8
    build_s = 0.0
    for h in cfg["harnesses"]:
        if only and h["name"] != only:
            continue
        if h.get("thorough_only") and not thorough:
            continue
        key = (tuple(h.get("src", cfg.get("src"))), bool(h.get("ub", cfg.get("ub", False))))
        if key not in builds:
            tb = time.time()
            bs = os.path.join(scratch, "b%d" % len(builds))
            os.makedirs(bs)
            builds[key] = (build(bs, key[0], key[1]), bs)
            build_s += time.time() - tb
        exe, bs = builds[key]
        out = os.path.join(scratch, h["name"] + ".json")
        limit = h.get("time_thorough", h.get("time", 60) * 10) if thorough else h.get("time", 60)
        if not thorough:
            # the whole check ends in time on a slower machine too: what is
            # not explored then is reported as not exhaustive
            limit = max(5, min(limit, 690 - (time.time() - t0)))
        cmd = [exe, "--harness", h["name"], "--out", out, "--time", str(limit), "--jobs", str(jobs), "--seed", str(seed)]
        for k, v in h.get("opts", {}).items():
            cmd += ["--" + k, str(v)]
        if thorough:
            cmd.append("--thorough")
        try:
            r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=limit + (240 if thorough else 90))
        except subprocess.TimeoutExpired:
            print("note: harness %s did not end" % h["name"])
            results.append({"harness": h["name"], "complete": False, "failed": "did not end"})
            continue
        if r.returncode or not os.path.exists(out):
            # the fixed, concrete preparation of the harness does not work on
            # this tree: that is a finding about the tree only if it is
            # reproducible with the plain build
            viols.append((h, {"label": "harness preparation failed: " + (r.stderr or r.stdout)[-1500:], "input": {}, "notes": []}))
            results.append({"harness": h["name"], "complete": False, "failed": (r.stderr or "")[-500:]})
            continue
        d = json.load(open(out))
        d["config"] = h
        results.append(d)
        for v in d["violations"]:
            viols.append((h, v))
        if d["violations"]:
            break
    # vacuity: every declared witness must have been reached
    vac = []
    for d in results:
        if "config" not in d:
            continue
        for w in d["config"].get("reach", []):
            if not d["reached"].get(w):
                vac.append((d["config"], w))
    confirmed, unconfirmed = [], []
    rdir = os.path.join(HERE, "replays")
    replays = {}
    def replay(h, v, n):
        key = (tuple(h.get("src", cfg.get("src"))), bool(h.get("ub", cfg.get("ub", False))))
        if key not in replays:
            bs = os.path.join(scratch, "r%d" % len(replays))
            os.makedirs(bs)
            replays[key] = build(bs, key[0], key[1], replay=True)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.txt" % (prop, h["name"], n))
        with open(path, "w") as f:
            f.write("# property %s harness %s tier %s\n# %s\n" % (prop, h["name"], tier, v["label"].replace("\n", " ")))
            for note in v["notes"]:
                f.write("# " + note.replace("\n", "\n# ") + "\n")
            for k, x in sorted(v["input"].items()):
                f.write("%s\t%d\n" % (k, x))
        try:
            r = subprocess.run([replays[key], h["name"], path] + (["thorough"] if thorough else []), env=env, capture_output=True, timeout=60)
            bad = r.returncode != 0
            outp = (r.stdout + r.stderr).decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            bad, outp = True, "no result within 60 s"
        with open(path, "a") as f:
            f.write("# replay on the plain build: %s\n# %s\n" % ("REPRODUCED" if bad else "not reproduced", outp[-1500:].replace("\n", "\n# ")))
        return bad, path, outp
    for n, (h, v) in enumerate(viols):
        bad, path, outp = replay(h, v, n)
        (confirmed if bad else unconfirmed).append((h, v, path, outp))
    for h, w in vac:
        # the first path (the harness' own concrete input) no longer gets
        # through: replay it to see whether the code rejects it
        bad, path, outp = replay(h, {"label": "witness %s not reached" % w, "input": {}, "notes": []}, 900)
        if bad:
            confirmed.append((h, {"label": "a required outcome is never reached: " + w}, path, outp))
        elif not confirmed and not any(d.get("timeout") for d in results):
            # no input within the bounds gets there any more although the
            # exploration was exhaustive
            d = [x for x in results if x.get("harness") == h["name"]][0]
            if d.get("complete"):
                confirmed.append((h, {"label": "no input within the bounds reaches: " + w}, path, outp))
    kf = known_findings()
    for d in results:
        for k in d.get("known", {}):
            for p, i, text in kf:
                if p == prop and i == k:
                    print("KNOWN-FINDING: property=%s %s" % (prop, text))
    # evidence
    tot = lambda f: sum(f(d) for d in results if "config" in d)
    q = lambda k: tot(lambda d: d["queries"][k])
    samples = []
    for d in results:
        for s in d.get("samples", [])[:2]:
            samples.append("%s: %s" % (d["harness"], s))
    per = []
    funcs = {}
    for d in results:
        if "config" not in d:
            per.append(d)
            continue
        for k, v in d["functions"].items():
            funcs[k] = funcs.get(k, 0) + v
        per.append({"harness": d["harness"], "bounds": d["config"].get("bounds", ""), "exhaustive_within_bounds": d["complete"], "time_limit_hit": d["timeout"],
                    "paths": d["paths"], "paths_assumed_away": d["assumed_away"], "queries": d["queries"], "fp_rewrites": d["fp_rewrites"],
                    "symbolic_ops": d["symbolic_ops"], "max_path_conditions": d["max_depth"], "divergences": d["divergences"], "term_machine_mismatches": d["term_machine_mismatches"],
                    "enumerations_cut": d["truncated"], "concretised_at": d["concretised"], "undecided_at": d["unknown_sites"], "symbolic_data_left_encoding_at": d["outside"],
                    "witnesses": d["reached"], "wall_s": d["wall_s"]})
    dem = list(funcs)
    try:
        dm = subprocess.run(["c++filt"], input="\n".join(dem), capture_output=True, text=True).stdout.split("\n")
        dem = [x for x in dm if x and not x.startswith("std::") and "__gnu_cxx" not in x]
    except OSError:
        pass
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot(lambda d: d["paths"]), "transitions": q("sat") + q("unsat") + q("unknown"),
                       "traces_validated_against_impl": tot(lambda d: d["ok"]),
                       "samples": samples or ["none"],
                       "exhaustive": all(d.get("complete") for d in results),
                       "states_meaning": "feasible execution paths of the harness over the real code, each run natively with its shadow terms",
                       "transitions_meaning": "SMT queries (one per branch side, bound check, enumeration step and assertion)",
                       "queries_sat": q("sat"), "queries_unsat_discharged": q("unsat"), "queries_unknown": q("unknown"), "solver_s": round(q("solver_s"), 2),
                       "functions_encoded": sorted(dem)[:150], "harnesses": per, "build_s": round(build_s, 1),
                       "unconfirmed_counterexamples": [v["label"] for _, v, _, _ in unconfirmed]},
          "assumptions": cfg.get("assumptions", []) + [
              "bounds as listed per harness; inputs outside them are outside the claim",
              "libc/libstdc++ code outside headers is executed natively; engine/models.c models the libc functions listed there (C locale)",
              "z3 4.8.12 decides QF_BV / QF_FPBV queries; integer-to-double chains are rewritten by the monotonicity and rounding-error rules of engine/expr.cc"],
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for d in per:
        if "paths" in d:
            print("%s: %d paths, %d queries (%d unsat), exhaustive=%s, %.1fs" % (d["harness"], d["paths"], sum(d["queries"][k] for k in ("sat", "unsat", "unknown")), d["queries"]["unsat"], d["exhaustive_within_bounds"], d["wall_s"]))
    for h, v, path, outp in unconfirmed:
        print("note: counterexample not reproduced by the plain build (not reported): %s %s" % (h["name"], v["label"][:200]))
    for h, v, path, outp in confirmed:
        print("violated: %s: %s" % (h["name"], v["label"][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if confirmed else 0


if __name__ == "__main__":
    sys.exit(main())
