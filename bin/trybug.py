#!/usr/bin/env python3
"""trybug.py ID... : confirm planted bugs (build, stable tests, demo both ways, check)."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def run(cmd, cwd=R, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def main():
    nocheck = "--nocheck" in sys.argv
    notest = "--notest" in sys.argv
    for b in [x for x in sys.argv[1:] if not x.startswith("--")]:
        d = os.path.join(V, "seeded", b)
        meta = json.load(open(os.path.join(d, "meta.json")))
        assert run(["git", "status", "--porcelain", "-uno"]).stdout == "", "/repo not clean"
        res = {}
        p = run(["git", "apply", os.path.join(d, "patch.diff")])
        if p.returncode:
            print(b, "does not apply", p.stdout)
            continue
        try:
            if not notest:
                p = run(["bash", "/opt/vp/build.sh"])
                res["build"] = p.returncode
                if p.returncode:
                    print(p.stdout[-2000:])
                run(["bash", "/opt/vp/test.sh", "/tmp/vp-out.json"])
                o = json.load(open("/tmp/vp-out.json"))
                base = json.load(open("/opt/vp/BASELINE.json"))
                want = base.get("passed") or base.get("stable") or base
                got = set(o.get("passed", []))
                miss = [t for t in want if t not in got]
                res["tests_missing"] = miss[:5]
            t = time.time()
            p = run(["bash", os.path.join(d, "demo.sh")], timeout=300)
            res["demo_patched"] = p.returncode
            res["demo_s"] = round(time.time() - t)
            res["demo_out"] = p.stdout[-400:]
            if not nocheck:
                t = time.time()
                p = run(["python3", "bin/check.py", meta["property"], "quick"], cwd=V)
                res["check"] = p.returncode
                res["check_s"] = round(time.time() - t)
                res["check_out"] = p.stdout[-300:]
        finally:
            run(["git", "checkout", "--", "."])
        if not notest:
            run(["bash", "/opt/vp/build.sh"])
        p = run(["bash", os.path.join(d, "demo.sh")], timeout=300)
        res["demo_clean"] = p.returncode
        if p.returncode:
            res["demo_clean_out"] = p.stdout[-600:]
        ok = (res.get("build", 0) == 0 and not res.get("tests_missing") and res["demo_patched"] != 0 and res["demo_clean"] == 0)
        print(b, meta["property"], "COUNTS" if ok else "BAD", "CAUGHT" if res.get("check") == 1 else "MISSED",
              json.dumps({k: v for k, v in res.items()}, indent=None))
        sys.stdout.flush()


main()
