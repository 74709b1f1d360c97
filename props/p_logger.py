"""C21, C22: the logger, against spec/Logger.tla."""
import vlib

NAMES = ["a", "b", "a.b", "a.b.c", "main", "x y", "\xe9", "LongName" * 8]
VIAS = ["msg", "loc", "macro", "message", "messageloc"]
TEXTS = ["", "one", "two lines\nsecond", "a\n\nb", "\n", "trailing\n", "\n\n\nx", "x" * 3000, ("line %d of many\n" * 9) % tuple(range(9)), "tab\tbed", "%s %n %d", "\xe9\xff",
         " lead", "trail ", "2026-01-01 00:00:00.000 INFO fake", "y" * 1023 + "\n" + "z" * 1024]


def harness(flavor):
    return vlib.build(flavor, ("vital_logger",), "h_logger", libs=["vital_logger", "kwiversys"])[0]


def hist(r, n, texts):
    ops, have = [], []
    for x in r.sample(NAMES, r.randint(1, 4)):
        ops.append(("get", x, r.choice("sc")))
        have.append(x)
    for _ in range(n):
        x = r.choice(have)
        k = r.random()
        if k < 0.15:
            x = r.choice(NAMES)
            ops.append(("get", x, r.choice("sc")))
            if x not in have:
                have.append(x)
        elif k < 0.4:
            ops.append(("level", x, str(r.randint(1, 7))))
        elif k < 0.6:
            ops.append(("query", x, r.choice("mx")))
        elif k < 0.63:
            ops.append(("lname", str(r.randint(1, 8))))
        elif k < 0.66:
            ops.append(("cget", str(r.randint(2, 6)), "3") + tuple(r.sample(NAMES, r.randint(1, 5))))
            have = list(dict.fromkeys(have + list(ops[-1][3:])))
        else:
            ops.append(("log", x, str(r.randint(2, 7)), r.choice(VIAS), r.choice(texts)))
    for x in have:
        ops.append(("query", x, "m"))
    return ops


def locs(r):
    files = ["f.cxx", "/a/b/f.cxx", "a/f", "/f.h", "dir.d/f", "f (1).cxx"]
    meths = ["f", "void f()", "int ns::C::m(int, std::string const&)", "ns::C::C()", "C::~C()", "static bool C::is(a::b)", "main", "int main(int, char**)",
             "std::string const& a::b::c() const", "void C::operator()(int)", "virtual void kwiver::vital::x::y(ns::T)"]
    return [("loc", r.choice(files), r.choice(meths), str(r.choice([1, 42, 99999, 0]))) for _ in range(6)]


def clog(r):
    ops, names = [], r.sample(NAMES, r.randint(1, 3))
    for n in names:
        ops.append(("get", n, "s"))
        ops.append(("level", n, str(r.randint(2, 5))))
    args = []
    for t in range(r.randint(2, 6)):
        for m in range(r.randint(1, 6)):
            lines = r.choice([1, 1, 2, 3, 8])
            args += [str(t), r.choice(names), str(r.randint(2, 7)), r.choice(VIAS), "\n".join("t%dm%dl%d" % (t, m, l) + "." * r.choice([0, 30, 400]) for l in range(lines))]
    return ops + [("clog",) + tuple(args)]


def c21(run):
    r = run.rng
    exe = harness("asan")
    run.conform(exe, "TraceLogger", run.tlc_scripts("MCLogger", consts={"MaxOps": run.n(4, 5)}, limit=run.n(2500, 20000)), label="tlc")
    run.conform(exe, "TraceLogger", [hist(r, r.randint(3, 30), TEXTS[:5]) for _ in range(run.n(500, 6000))], label="rnd")
    exe = harness("tsan")
    n = run.n(64, 600)
    # one process per script: the first requests of the process are concurrent
    run.conform(exe, "TraceLogger", [[("cget", str(r.randint(2, 8)), "2") + tuple(r.sample(NAMES, r.randint(1, 6))) + ("rr",), ("race", "rr"), ("get", "rr", "s"), ("query", "rr", "m")] for _ in range(n // 4)], chunk=1, label="first")
    sc = []
    for _ in range(n):
        sc.append([("get", "rr", "s"), ("race", "rr"), ("query", "rr", "m"), ("cget", str(r.randint(2, 8)), "20") + tuple(r.sample(NAMES, 6))] + hist(r, 10, TEXTS[:5]))
    run.conform(exe, "TraceLogger", sc, label="tsan")
    run.assumptions.append("real thread schedules are sampled; unsynchronized accesses are detected by ThreadSanitizer on the explored executions")


def c22(run):
    r = run.rng
    run.model_check("LogConc", consts={"NMsg": run.n(2, 3)})
    run.model_check("MCLogger", consts={"MaxOps": 2})
    exe = harness("asan")
    run.conform(exe, "TraceLogger", [hist(r, r.randint(3, 25), TEXTS) + locs(r) for _ in range(run.n(500, 6000))], label="rnd")
    run.conform(exe, "TraceLogger", [clog(r) for _ in range(run.n(400, 5000))], label="conc")
    exe = harness("tsan")
    run.conform(exe, "TraceLogger", [clog(r) for _ in range(run.n(120, 1500))], label="tsan")
    run.assumptions.append("real thread schedules are sampled; unsynchronized accesses are detected by ThreadSanitizer on the explored executions")
