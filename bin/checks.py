"""One function per property."""
import json, os, shutil
import vp


def load_cases(path):
    return [json.loads(l) for l in open(path)]


def equiv(c, pipes, n, args=3, tag="eq", profile="default", seed_off=0):
    """Generated programs, transformed by the real passes; IrEquiv decides
    whether every transformed program behaves like its source."""
    f = c.path(tag + ".ndjson")
    p = c.harness("equiv", pipes=pipes, n=n, args=args, out=f, seed=c.seed + seed_off, profile=profile)
    cases = load_cases(f)
    check_equiv(c, cases, f, tag)
    return cases


def check_equiv(c, cases, f, tag, module="IrEquiv"):
    if not cases:
        return
    fails, out = c.tlc(module, extra={"VP_CASES": f})
    c.traces += sum(len(k["args"]) * (len(k["progs"]) - 1) + sum(len(o) for o in k["obs"]) for k in cases)
    for k in cases[:2]:
        c.samples.append({"case": k["id"], "how": [q["how"] for q in k["progs"]], "program": k["text"][:1500]})
    for inv, st in fails:
        if inv == "SourceOk" and not any(i != "SourceOk" for i, _ in fails):
            raise vp.ToolError("generated source program is not meaningful: " + st)
        ci = int(vp.alias_field(st, "c")) - 1
        k = cases[ci]
        how = vp.alias_field(st, "bad" if inv == "Observed" else "how")
        c.violation("%s: case %s %s %s" % (inv, k["id"], how, vp.alias_field(st, "got")),
                    {"invariant": inv, "state": st, "text": k["text"], "args": k["args"]}, key=str(how))


def P01(c):
    """canonicalization and dead-code elimination"""
    equiv(c, "canonicalize;canonicalize+dce", 1, args=3, tag="templ", profile="templates")
    n = 110 if c.quick else 3000
    equiv(c, "canonicalize;dce;canonicalize+dce", n)


def P02(c):
    """inlining"""
    equiv(c, "inline;inline+canonicalize+dce", 110 if c.quick else 3000, profile="calls")
    equiv(c, "inline;inlineall;inlineone;inlinesmall;inlinesites", 90 if c.quick else 3000, tag="inl", profile="inline", args=2)
    equiv(c, "inline", 40 if c.quick else 1500, seed_off=1000)


def P03(c):
    """structured control flow to CFG"""
    equiv(c, "scf2cf;canonicalize+scf2cf", 160 if c.quick else 3000, profile="control")
    equiv(c, "scf2cf", 60 if c.quick else 1500, seed_off=1000)


def native(c, n, profile="default", tag="nat", variants="0:7;1:7", seed_off=0, args=3, rotate=0, events=0,
           managed=0, files="", rt=False):
    f = c.path(tag + ".ndjson")
    more = {"rt": vp.build_runtime()} if rt else {}
    c.harness("native", **more, n=n, dir=c.path(tag), out=f, variants=variants, rotate=rotate, events=events,
              notail=1, profile=profile, seed=c.seed + seed_off, args=args, managed=managed, files=files or "-",
              driver=os.path.join(vp.VERIF, "native", "driver.c"))
    cases = load_cases(f)
    check_equiv(c, cases, f, tag)
    if events:
        fails, _ = c.tlc("RcTrace", extra={"VP_CASES": f})
        for inv, st in fails:
            k = cases[int(vp.alias_field(st, "c")) - 1]
            how = vp.alias_field(st, "how")
            c.violation("%s: case %s %s %s live %s" % (inv, k["id"], how, vp.alias_field(st, "bad"), vp.alias_field(st, "live")),
                        {"invariant": inv, "state": st, "text": k["text"], "args": k["args"]}, key=str(how))
    shutil.rmtree(c.path(tag), ignore_errors=True)
    return cases


def P10(c):
    """native code"""
    native(c, 1, profile="templates", tag="templ", variants="0:7")
    native(c, 60 if c.quick else 1500)
    native(c, 40 if c.quick else 1000, profile="control", seed_off=500, tag="ctl")


def wasm(c, n, profile, tag, seed_off=0, args=3, wasm=0):
    f = c.path(tag + ".ndjson")
    c.harness("wasm", n=n, dir=c.path(tag), out=f, profile=profile, seed=c.seed + seed_off, args=args,
              notail=1 if profile == "templates" else 0, wasm=1, driver=os.path.join(vp.VERIF, "native", "driver.js"))
    cases = load_cases(f)
    check_equiv(c, cases, f, tag)
    shutil.rmtree(c.path(tag), ignore_errors=True)
    return cases


def P11(c):
    """wasm code"""
    wasm(c, 1, "templates", "templ")
    wasm(c, 120 if c.quick else 3000, "wasm", "wasm")


def P12(c):
    """reference counting"""
    q = c.quick
    native(c, 40 if q else 800, profile="boxes", tag="boxes", variants="0:7;1:7;0:0", rotate=1, events=1, managed=1)
    native(c, 50 if q else 800, profile="objects", tag="objects", variants="0:7;0:0", rotate=1, events=1, managed=1, seed_off=100)
    native(c, 40 if q else 800, profile="heap", tag="heap", variants="0:7;1:7;0:0", rotate=1, events=1, seed_off=200)
    native(c, 1, profile="files", tag="known", variants="0:7", events=1, files=os.path.join(vp.VERIF, "cases", "rc"))


def trace_check(c, module, f, tag, what=lambda k, st: ""):
    """Recorded histories against a trace specification; one report per history."""
    traces = load_cases(f)
    fails, _ = c.tlc(module, extra={"VP_CASES": f})
    c.traces += len(traces)
    c.samples += traces[:1]
    seen = set()
    for inv, st in fails:
        t = int(vp.alias_field(st, "t"))
        if t in seen:
            continue
        seen.add(t)
        k = traces[t - 1]
        c.violation("%s: history %s step %s %s %s" % (inv, k["id"], vp.alias_field(st, "i"), vp.alias_field(st, "step"), vp.alias_field(st, "diff")),
                    {"invariant": inv, "state": st, "trace": k}, key=str(vp.alias_field(st, "step")))
    return traces


def P05(c):
    """IR graph integrity"""
    f = c.path("graph.ndjson")
    for i in range(1 if c.quick else 8):
        c.harness("graph", n=500, len=50, seed=c.seed + 100 * i, out=f)
        trace_check(c, "IrGraphTrace", f, "graph")


def P04(c):
    """reachability of functions"""
    for i in range(1 if c.quick else 6):
        f = c.path("modgraph.ndjson")
        c.harness("modgraph", n=2500 if c.quick else 8000, exhaustive=1 if i == 0 else 0, seed=c.seed + i, out=f)
        trace_check(c, "ModGraph", f, "modgraph")
    equiv(c, "globaldce;inline+globaldce;globaldce+canonicalize+dce+globaldce", 40 if c.quick else 1500, profile="calls")


def P06(c):
    """text form"""
    for i in range(1 if c.quick else 10):
        f = c.path("text.ndjson")
        c.harness("text", n=600 if c.quick else 2000, seed=c.seed + i, out=f)
        trace_check(c, "IrText", f, "text")


def P07(c):
    """validation and dominance"""
    q = c.quick
    for i in range(1 if q else 6):
        f = c.path("dom.ndjson")
        c.harness("dom", n=1500 if q else 10000, max=9 if q else 12, exhaustive=1 if i == 0 else 0, seed=c.seed + i, out=f)
        trace_check(c, "Dominance", f, "dom")
        f = c.path("valid.ndjson")
        c.harness("valid", n=2500 if q else 12000, seed=c.seed + i, out=f)
        trace_check(c, "IrValid", f, "valid")


def P09(c):
    """pass managers and the analysis cache"""
    q = c.quick
    for i in range(1 if q else 6):
        f = c.path("passman.ndjson")
        c.harness("passman", n=2500 if q else 10000, seed=c.seed + i, out=f)
        trace_check(c, "PassMgr", f, "passman")
        f = c.path("cache.ndjson")
        c.harness("cache", n=300 if q else 2000, len=60, seed=c.seed + i, out=f)
        trace_check(c, "AnaCache", f, "cache")


def P08(c):
    """dialect conversion"""
    for i in range(1 if c.quick else 8):
        f = c.path("conv.ndjson")
        c.harness("conv", n=2500 if c.quick else 8000, seed=c.seed + i, out=f)
        trace_check(c, "Rewrite", f, "conv")


def effects(c, n, profile, tag, seed_off=0, run=False, files="-", args=3):
    f = c.path(tag + ".ndjson")
    kw = dict(dir=c.path(tag), driver=os.path.join(vp.VERIF, "native", "driver.c"),
              jsdriver=os.path.join(vp.VERIF, "native", "driver.js")) if run else {}
    c.harness("eff", n=n, out=f, profile=profile, seed=c.seed + seed_off, args=args, files=files, **kw)
    cases = load_cases(f)
    check_equiv(c, cases, f, tag, "EffEquiv")
    shutil.rmtree(c.path(tag), ignore_errors=True)


def P13(c):
    """first-class functions and effect handlers"""
    q = c.quick
    effects(c, 1, "files", "known", files=os.path.join(vp.VERIF, "cases", "eff"), args=1)
    for i in range(1 if q else 8):
        effects(c, 160 if q else 400, "effects", "effects", seed_off=i * 100)
        effects(c, 80 if q else 200, "pure", "pure", seed_off=i * 100 + 10)
        effects(c, 35 if q else 150, "direct", "direct", seed_off=i * 100 + 20, run=True)
        f = c.path("reject.ndjson")
        c.harness("effrej", n=250 if q else 1500, seed=c.seed + i, out=f)
        trace_check(c, "Reject", f, "reject")


def P14(c):
    """built-in operations on the values of the language"""
    q = c.quick
    native(c, 60 if q else 1500, profile="rich", tag="rich", variants="0:7;1:7", rt=True)
    wasm(c, 80 if q else 2000, "rich", "richw")



def model(c, module):
    """A specification on its own: its invariants over all its behaviours."""
    fails, _ = c.tlc(module)
    if fails:
        raise vp.ToolError("the specification %s violates %s" % (module, fails[0]))


def P15(c):
    """standard input and output under every answer of the system"""
    q = c.quick
    model(c, "IoModel")
    for i in range(1 if q else 8):
        f = c.path("io.ndjson")
        c.harness("io", n=1200 if q else 5000, deep=(4 if q else 5) if i == 0 else 1, seed=c.seed + i, dir=c.path("io"), out=f,
                  driver=os.path.join(vp.VERIF, "native", "io.c"), jsdriver=os.path.join(vp.VERIF, "native", "io.js"), rt=vp.build_runtime())
        trace_check(c, "IoTrace", f, "io")
        shutil.rmtree(c.path("io"), ignore_errors=True)


def P17(c):
    """legacy effect handling compiled natively"""
    from concurrent.futures import ThreadPoolExecutor
    drv = os.path.join(vp.VERIF, "native", "driver")
    rt = vp.build_runtime()
    kw = dict(driver=drv + ".c", jsdriver=drv + ".js", wasm=0, rt=rt)
    f = c.path("known.ndjson")
    c.harness("legacy", n=0, files=os.path.join(vp.VERIF, "cases", "leg"), dir=c.path("known"), out=f, **kw)
    check_equiv(c, load_cases(f), f, "known", "EffEquiv")
    for r in range(1 if c.quick else 10):
        def one(i):
            o = c.path("leg%d.ndjson" % i)
            c.harness("legacy", n=45 if c.quick else 80, level=[25, 0, 16, 24, 17, 25][i], seed=c.seed * 100 + r * 10 + i,
                      dir=c.path("leg%d" % i), out=o, **kw)
            return o
        with ThreadPoolExecutor(6) as ex:
            outs = list(ex.map(one, range(6)))
        with open(f, "w") as fh:
            for o in outs:
                fh.write(open(o).read())
        check_equiv(c, load_cases(f), f, "legacy", "EffEquiv")


def P18(c):
    """which programs of the control language are well formed"""
    q = c.quick
    for i in range(1 if q else 12):
        f = c.path("ctl.ndjson")
        c.harness("ctl", n=5000 if q else 9000, max=90 if q or i % 3 else 160, seed=c.seed * 100 + i, out=f)
        trace_check(c, "Control", f, "control")


def P16(c):
    """the runtime library: evidence, tags, initialization, byte strings, memory"""
    q = c.quick
    model(c, "RtInit")
    for i in range(1 if q else 10):
        f = c.path("rt.ndjson")
        c.harness("rt", n=8000 if q else 20000, threads=200 if q else 800, seed=c.seed + i, dir=c.path("rt"), out=f,
                  driver=os.path.join(vp.VERIF, "native", "rt.c"), rt=vp.build_runtime())
        trace_check(c, "RuntimeTrace", f, "rt")
        shutil.rmtree(c.path("rt"), ignore_errors=True)
