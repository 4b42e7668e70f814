# Development helper: python3 tools/trybug.py ID... applies seeded/ID/patch.diff to /repo, builds, runs the
# tests, the demo and the property's check, and undoes the patch. Not used by any check.
import json, os, subprocess, sys
# VS_REPO: a clone to use instead of /repo, with VS_BUILD and VS_TEST scripts for it
repo = os.environ.get("VS_REPO", "/repo"); build = os.environ.get("VS_BUILD", "/opt/vp/build.sh"); test = os.environ.get("VS_TEST", "/opt/vp/test.sh")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh("git -C %s status --porcelain" % repo).stdout
nocheck = "--nocheck" in sys.argv
nodemo = "--nodemo" in sys.argv
for b in [x for x in sys.argv[1:] if not x.startswith("--")]:
    d = os.path.join(here, "seeded", b)
    p = json.load(open(d + "/meta.json"))["property"]
    res = {}
    try:
        if not nodemo:
            sh("bash " + build)
            r = sh("bash %s/demo.sh" % d, cwd=repo)
            res["demo_clean"] = r.returncode
            if r.returncode: print((r.stdout + r.stderr)[-800:])
        r = sh("git -C %s apply %s/patch.diff" % (repo, d))
        if r.returncode:
            print(b, "patch does not apply", r.stderr); continue
        if not nodemo:
            r = sh("bash " + build)
            res["build"] = r.returncode
            if r.returncode: print(r.stdout[-1500:])
            sh("bash %s /tmp/trybug.json" % test)
            o = json.load(open("/tmp/trybug.json")); s = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            res["broken_tests"] = [x for x in s if x not in o["passed"]][:4]
            r = sh("bash %s/demo.sh" % d, cwd=repo)
            res["demo_bug"] = r.returncode
            print("   ", (r.stdout + r.stderr)[-200:].strip())
        if not nocheck:
            r = sh("python3 check.py %s --tier quick" % p, cwd=here)
            res["check"] = r.returncode
            print("   ", "\n    ".join(l[:300] for l in r.stdout.splitlines() if l.startswith(("violated", "VIOLATION"))), r.stderr[-300:])
    finally:
        sh("git -C %s checkout -- ." % repo)
    print(b, p, res, "OK" if res.get("check", 1) == 1 and not res.get("broken_tests") and res.get("demo_bug", 1) and not res.get("demo_clean", 0) and not res.get("build", 0) else "PROBLEM", flush=True)
sh("bash " + build)
