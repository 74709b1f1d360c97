"""C20: plugin loading, against spec/Plugins.tla."""
import os
import vlib


def harness(flavor):
    f = ["-fno-gnu-unique"]  # a closed plugin is really unmapped
    L = ["vital_apm", "vital", "vital_config", "vital_logger", "kwiversys"]
    exe, bd = vlib.build(flavor, ("vital_apm",), "h_plugin", libs=L)
    for p in ("plug_multi", "plug_noentry", "plug_undef"):
        vlib.build(flavor, ("vital_apm",), p, libs=L if p == "plug_multi" else ["kwiversys"], shared=True, extra_flags=f)
    return exe, bd


NAMES = ["a.so", "b.so", "a.b.so", "lib_c.so", "a.so.1", "d.SO", "e.dll", "f", "a..so", ".so", "x y.so", "b.so.so", "gso", "a.b.c.so"]
MODS = ["a", "b", "a.b", "lib_c", "a.", "b.so", "x y", "nope", "a.so", "a.b.c", "c", "A"]
ALGS = ["x", "y", "z", "w", "alpha beta", "v1.0"]


def put(r, d, f, ms=0):
    k = r.choice(["module"] * 6 + ["noentry", "undef", "text", "empty", "cut", "dir", "gone"])
    ret = r.choice([0, 0, 0, 1, 3])
    al = r.sample(ALGS, r.randint(0, 3)) if k == "module" else []
    return ("put", d, f, k, str(ret if k == "module" else 0), str(ms)) + tuple(al)


def hist(r):
    dirs = ["d1", "d2", "d3"]
    ops = [("dir", d) for d in dirs]
    files = {}
    for d in dirs:
        for f in r.sample(NAMES, r.randint(0, 4)):
            files[d, f] = put(r, d, f)
            ops.append(files[d, f])
    r.shuffle(dirs)
    on = dirs[:r.randint(0, 3)]
    e = on[:]
    for x in ("", "no", "/nonexistent/vp"):
        if r.random() < 0.3:
            e.insert(r.randint(0, len(e)), x)
    if e or r.random() < 0.5:
        ops.append(("env",) + tuple(e))
    rest = dirs[len(on):]
    h = 0
    for _ in range(r.randint(1, 8)):
        k = r.random()
        if k < 0.35:
            ops.append(("load",) if r.random() < 0.6 else ("load", r.choice(MODS)))
        elif k < 0.5:
            ops.append(("once", str(r.randint(1, 5))))
        elif k < 0.6 and rest:
            ops.append(("add", rest.pop()))
        elif k < 0.65:
            ops.append(("add", r.choice(["", "no", "/nonexistent/vp"])))
        elif k < 0.7:
            ops.append(("paths",))
        elif k < 0.9:
            h += 1
            ops.append(("make", str(h), r.choice(ALGS)))
        elif files:
            d, f = r.choice(list(files))
            if files[d, f][3] == "module":  # what it registers from now on
                files[d, f] = ("put", d, f, "module", str(r.choice([0, 0, 2])), "0") + tuple(r.sample(ALGS, r.randint(0, 3)))
                ops.append(files[d, f])
            elif files[d, f][3] != "dir":
                ops.append(("rm", d, f))
                del files[d, f]
    ops.append(("load",))
    ops += [("held", str(i + 1)) for i in range(h)] + [("paths",), ("state",)]
    return ops


def conc(r):
    ops = [("dir", "d1"), ("dir", "d2"), put(r, "d1", "a.so", r.choice([0, 1, 5])), put(r, "d2", "b.so", r.choice([0, 1, 5])),
           ("put", "d1", "c.so", "module", str(r.choice([0, 0, 1])), str(r.choice([0, 1, 3])), "x", "y", "w"), ("env", "d1", "d2")]
    if r.random() < 0.2:
        ops.append(("paths",))
    return ops + [("once", str(r.randint(2, 8))), ("once", str(r.randint(1, 4))), ("state",)]


def c20(run):
    r = run.rng
    run.model_check("PlugOnce", consts={"Threads": run.n("{1, 2, 3}", "{1, 2, 3, 4}"), "Modules": run.n('{"a", "b"}', '{"a", "b", "c"}')})
    run.must_fail("PlugOnce", consts={"Lock": "FALSE"})
    run.must_fail("PlugOnce", consts={"Lock": "FALSE", "FlagLast": "FALSE"})
    run.model_check("MCPlugins", consts={"MaxFiles": run.n(2, 3)})
    exe, bd = harness("asan")
    a = [bd]
    run.conform(exe, "TracePlugins", run.tlc_scripts("MCPlugins", "MCPlugins_gen.cfg", limit=run.n(500, 8000)), label="tlc", args=a)
    run.conform(exe, "TracePlugins", [hist(r) for _ in range(run.n(500, 6000))], label="rnd", args=a)
    run.conform(exe, "TracePlugins", [conc(r) for _ in range(run.n(60, 600))], label="conc", args=a)
    exe, bd = harness("tsan")
    run.conform(exe, "TracePlugins", [conc(r) for _ in range(run.n(60, 600))], label="tsan", args=[bd])
    run.assumptions.append("real thread schedules are sampled; unsynchronized accesses are detected by ThreadSanitizer on the explored executions")
    run.assumptions.append("plugins are copies of one library whose behaviour is set by a file beside each copy")
