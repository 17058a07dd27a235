#!/usr/bin/env python3
"""mutate.py: automatic mutation campaign, used while developing the checks (no check runs it).

  mutate.py gen N SEED OUT         sample N mutants over the anchor files of properties.jsonl
  mutate.py run LAB I K LIST LOG   (inside `unshare -Urm`) run mutants i with i % K == I in LAB/I/{repo,verif,ws}
"""
import json, os, random, re, subprocess, sys, time
V = "/verif"
R = "/repo"

SUBS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bif !", "if "), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
    (r"\.is_empty\(\)", ".len() == 1"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.rev\(\)", ""),
    (r"\.skip\(1\)", ""), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"),
    (r"\bcontinue;", ""), (r"\bbreak;", ""), (r"\bOk\(false\)", "Ok(true)"), (r"\breturn (None|Vec::new\(\)|vec!\[\]);", None),
    (r"\bI32\b", "I64"), (r"\bI64\b", "I32"), (r"i32\b", "i64"), (r"Signed", "Unsigned"), (r"Unsigned", "Signed"),
    (r"wrapping_add", "wrapping_sub"), (r"sdiv", "udiv"), (r"ushr", "sshr"), (r"\.max\(", ".min("), (r"\.min\(", ".max("),
    (r"\.insert\(0, ", ".push("), (r"\.cloned\(\)\.chain", None), (r" \* ", " + "), (r" \+ ", " - "), (r" & ", " | "),
]


def code_lines(path):
    out, lines = [], open(path).read().split("\n")
    for i, l in enumerate(lines):
        if re.match(r"\s*#\[cfg\(test\)\]", l):
            return lines, out
        s = l.strip()
        if s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("pub use") or not s \
                or "tracing::" in s or "debug_assert" in s or "format!" in s or s.startswith("assert") or '"' in s and "panic" in s:
            continue
        out.append(i)
    return lines, out


def candidates(path):
    lines, idx = code_lines(path)
    res = []
    for i in idx:
        l = lines[i]
        code = l.split("//")[0]
        for pat, rep in SUBS:
            if rep is None:
                continue
            for m in re.finditer(pat, code):
                new = l[:m.start()] + re.sub(pat, rep, m.group(0)) + l[m.end():]
                res.append((path, i, i + 1, [new]))
        # delete a whole statement
        m = re.match(r"(\s+)(?!let |return|use |pub |fn |\}|else)([a-z_*][\w\.\*:]*.*)$", l)
        if m:
            ind = m.group(1)
            j = i
            while j < len(lines) and j < i + 12:
                if lines[j].rstrip().endswith(";") and (j == i or lines[j].startswith(ind + ")") or lines[j].startswith(ind + "}") or lines[j].startswith(ind + "    .")):
                    bal = "\n".join(lines[i:j + 1])
                    if bal.count("(") == bal.count(")") and bal.count("{") == bal.count("}"):
                        res.append((path, i, j + 1, []))
                    break
                j += 1
    return res


def gen(n, seed, out, only=None):
    rnd = random.Random(seed)
    files = {}
    for l in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(l)
        if only and p["id"] not in only:
            continue
        for f in p["anchors"]["files"]:
            q = os.path.join(R, f)
            fs = [os.path.join(q, x) for x in sorted(os.listdir(q)) if x.endswith(".rs")] if os.path.isdir(q) else [q]
            for x in fs:
                files.setdefault(x, set()).add(p["id"])
    allc = []
    for f in sorted(files):
        if os.path.basename(f) in ("printer.rs",) or True:
            c = candidates(f)
            k = max(3, int(len(c) ** 0.6))
            rnd.shuffle(c)
            allc += [(x, sorted(files[f])) for x in c[:k]]
    rnd.shuffle(allc)
    with open(out, "w") as o:
        for k, ((path, a, b, new), props) in enumerate(allc[:n]):
            o.write(json.dumps({"id": "M%d-%d" % (seed, k), "file": path, "a": a, "b": b, "new": new, "props": props}) + "\n")
    print(len(allc))


def sh(cmd, cwd=R, timeout=900):
    try:
        return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as e:
        class X:
            returncode, stdout = 124, str(e)
        return X


def run(lab, i, k, lst, log):
    d = os.path.join(lab, str(i))
    for a, b in (("repo", "/repo"), ("verif", "/verif"), ("ws", "/opt/vp/ws")):
        subprocess.check_call(["mount", "--bind", os.path.join(d, a), b])
    os.chdir("/")
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    done = set()
    if os.path.exists(log):
        done = {json.loads(l)["id"] for l in open(log)}
    for n, l in enumerate(open(lst)):
        m = json.loads(l)
        if n % k != i or m["id"] in done:
            continue
        sh(["git", "checkout", "--", "."])
        src = open(m["file"]).read()
        lines = src.split("\n")
        m["old"] = lines[m["a"]:m["b"]]
        lines[m["a"]:m["b"]] = m["new"]
        open(m["file"], "w").write("\n".join(lines))
        t = time.time()
        p = sh(["bash", "/opt/vp/build.sh"])
        if p.returncode:
            m["res"] = "nobuild"
        else:
            o = os.path.join(d, "o.json")
            sh(["bash", "/opt/vp/test.sh", o], timeout=400)
            try:
                got = set(json.load(open(o)).get("passed", []))
            except Exception:
                got = set()
            miss = [t for t in base if t not in got]
            if miss:
                m["res"] = "tests"
            else:
                m["res"] = "missed"
                m["checks"] = {}
                for pr in m["props"]:
                    q = sh(["python3", "bin/check.py", pr, "quick"], cwd=V)
                    m["checks"][pr] = (q.returncode, q.stdout[-200:])
                    if q.returncode == 1:
                        m["res"] = "caught"
                        break
                    if q.returncode != 0:
                        m["res"] = "noanswer"
        m["s"] = round(time.time() - t)
        with open(log, "a") as f:
            f.write(json.dumps(m) + "\n")
        sh(["git", "checkout", "--", "."])


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], set(sys.argv[5:]))
    else:
        run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], sys.argv[6])
