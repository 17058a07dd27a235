import threading
"""Shared machinery of the checks: building the harness against /repo's
working tree, running TLC, collecting violations, writing evidence."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(REPO, "target")          # ignored by git in /repo; reuses built dependencies
VPH = os.path.join(TARGET, "debug", "vph")


class ToolError(Exception):
    pass


class Crashed(Exception):
    """The code under test crashed or hung; the violation is already recorded."""


def env(extra=None):
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
             CARGO_TARGET_DIR=TARGET, RUSTC_WRAPPER="")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:/root/.cargo/bin:" + e.get("PATH", "")
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "LD_LIBRARY_PATH"):
        e.pop(k, None)
    e.update(extra or {})
    return e


def sh(cmd, cwd=None, timeout=800, extra=None, check=True):
    p = subprocess.run(cmd, cwd=cwd, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=timeout)
    if check and p.returncode != 0:
        raise ToolError("%s failed (%d):\n%s" % (" ".join(cmd), p.returncode, p.stdout[-4000:]))
    return p


def build():
    sh(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "harness"))


def build_runtime():
    """The static library that natively compiled programs link (as /repo/build.rs builds it)."""
    d = os.path.join(VERIF, "rt")
    sh(["cargo", "rustc", "--offline", "-q", "--manifest-path", os.path.join(d, "Cargo.toml"), "--lib",
        "--profile", "runtime", "--crate-type", "staticlib"], cwd=d)
    return os.path.join(TARGET, "runtime", "libvprt.a")


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.viol = []
        self.known = []
        kf = os.path.join(VERIF, "known_findings.json")
        self.findings = [f for f in (json.load(open(kf)) if os.path.exists(kf) else [])
                         if f["property"] == prop and f.get("status") == "known"]

    @property
    def quick(self):
        return self.tier == "quick"

    def path(self, name):
        return os.path.join(self.work, name)

    def harness(self, cmd, timeout=800, check=True, **kw):
        args = [VPH, cmd]
        for k, v in kw.items():
            args += ["--" + k, str(v)]
        prog = self.path("progress%d" % threading.get_ident())
        open(prog, "w").close()
        p = sh(args, timeout=timeout, check=False, extra={"RUST_BACKTRACE": "0", "VP_PROGRESS": prog})
        if p.returncode in (-6, -11, -4, -8, -7, 70):
            # the code under test took the whole process down, or did not come back
            what = "hung" if p.returncode == 70 else "died of signal %d" % -p.returncode
            case = open(prog, errors="replace").read()
            self.violation("%s: the code under test %s" % (cmd, what), {"case": case, "output": p.stdout[-2000:]}, key=cmd)
            raise Crashed()
        if check and p.returncode != 0:
            raise ToolError("%s failed (%d):\n%s" % (" ".join(args), p.returncode, p.stdout[-4000:]))
        return p

    def violation(self, what, data, key=None):
        """Record a violation; listed findings are reported but do not fail the check."""
        blob = json.dumps({"what": what, "key": key, "data": data}, sort_keys=True)
        for f in self.findings:
            if re.search(f["match"], blob):
                if f["id"] not in [k["id"] for k in self.known]:
                    self.known.append(f)
                return
        n = len(self.viol)
        if n < 20:
            p = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (self.prop, n))
            with open(p, "w") as fh:
                fh.write(json.dumps({"property": self.prop, "what": what, "case": data}, indent=1))
            self.viol.append((what, p))
        else:
            self.viol.append((what, self.viol[0][1]))

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, extra=None, timeout=700, workers=8, cont=True, coverage=False,
            heap="10g", simulate=None, deadlock=False):
        """Run TLC; returns (failures, output): failures is a list of
        (invariant, last aliased state as text)."""
        meta = self.path("meta-%s-%d" % (module, int(time.time() * 1000)))
        cp = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", cp,
               "-Dtlc2.TLC.stopAfter=%d" % timeout, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final",
               "-config", (cfg or module) + ".cfg"]
        if cont:
            cmd.append("-continue")
        if coverage:
            cmd += ["-coverage", "60"]
        if simulate:
            cmd += simulate
        if not deadlock:
            cmd.append("-deadlock")
        cmd.append(module + ".tla")
        # A broken tree can violate an invariant in many states; a few hundred
        # reports are enough, and waiting for all of them could take too long.
        log, t0, cut, first = self.path("tlc-%s.log" % module), time.time(), False, None
        with open(log, "w") as fh:
            p = subprocess.Popen(cmd, cwd=SPEC, env=env(extra), stdout=fh, stderr=subprocess.STDOUT)
            while True:
                try:
                    p.wait(0.3)
                    break
                except subprocess.TimeoutExpired:
                    late = time.time() - t0 > timeout + 60
                    size = os.path.getsize(log)
                    if first is None and size:
                        with open(log, errors="replace") as lh:
                            first = time.time() if "is violated" in lh.read(300_000) else None
                    if late or size > 40e6 or (first and time.time() - first > 100):
                        cut = True
                        p.kill()
                        p.wait()
                        if late:
                            break
        shutil.rmtree(meta, ignore_errors=True)
        with open(log, errors="replace") as fh:
            out = fh.read(60_000_000)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", out)
        if m:
            self.transitions += int(m[-1][0].replace(",", ""))
            self.states += int(m[-1][1].replace(",", ""))
        fails = []
        chunks = re.split(r"^Error: ", out, flags=re.M)
        bad = None
        for ch in chunks[1:]:
            mi = re.match(r"(Invariant|Property|Action property|Temporal properties|Postcondition)\s*(\S*).*", ch)
            if mi and "violated" in ch.split("\n")[0] or (mi and "violated" in ch[:300]):
                st = re.split(r"^State \d+:.*$", ch, flags=re.M)
                last = st[-1] if len(st) > 1 else ch
                last = re.split(r"\n\s*\n", last.strip())[0]
                fails.append((mi.group(2) or mi.group(1), last))
            elif ch.startswith("The behavior up to this point") or ch.startswith("The following behavior"):
                st = re.split(r"^State \d+:.*$", ch, flags=re.M)
                if len(st) > 1 and fails:
                    fails[-1] = (fails[-1][0], re.split(r"\n\s*\n", st[-1].strip())[0])
            elif "TLC threw" in ch or "evaluating" in ch or "Parsing" in ch or "Assumption" in ch or bad is None:
                bad = ch
        done = "Model checking completed" in out or "states generated" in out
        if cut and fails:
            return fails[:-1] or fails, out
        if bad and not fails:
            raise ToolError("TLC error in %s:\n%s" % (module, bad[:3000]))
        if not done:
            raise ToolError("TLC did not finish %s:\n%s" % (module, out[-3000:]))
        if not fails and m and m[-1][2] != "0" and not simulate:
            self.extra["truncated_" + module] = int(m[-1][2].replace(",", ""))
        return fails, out

    # ------------------------------------------------------------- evidence
    def finish(self, wall_note=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:5] or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            fh.write(json.dumps(ev, indent=1))
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        shutil.rmtree(self.work, ignore_errors=True)
        if self.viol:
            seen = set()
            for what, p in self.viol[:10]:
                if p in seen:
                    continue
                seen.add(p)
                print("# %s" % what[:400].replace("\n", " "))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            sys.exit(1)
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (self.prop, self.states, self.traces, time.time() - self.t0))
        sys.exit(0)


def alias_field(txt, name):
    m = re.search(r"/\\ %s = (.*)" % name, txt)
    return m.group(1).strip() if m else None
