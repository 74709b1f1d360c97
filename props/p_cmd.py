"""C33: command-line parsing."""
import vlib


def harness():
    return vlib.build_kw("h_cmd")


FORMS = ["none", "concat", "space", "equal", "multi"]
KINDS = ["call", "call", "bool", "int", "double", "cstr", "str", "vbool", "vint", "vdouble", "vcstr", "vstr"]
NAMES = ["-a", "-ab", "-abc", "--a", "--ab", "-", "--", "-n", "-N", "--n=", "--fail", "x", "-a=", "--opt", "--option", "--option-x"]
VALUES = ["1", "0", "no", "yes", "ON", "True", "010", "-5", "+12", "3.25", "-0.5", "2.50", "12ab", "abc", "", " ", "a b", "=", "=1", "b", "--z", "zzz", "-q", "100000", ".5", "7."]
WORDS = ["a", "of", "the", "option", "takes", "values", "extraordinarily", "-A", "x=y", "(number)"]


def fits(opts, a):
    f = [n for n, o in opts.items() if (a == n if o in ("none", "space") else a.startswith(n))]
    return max(f, key=len) if f else None


def text(r, n):
    sep = [" ", " ", " ", "  ", "\t", "   "] if r.random() < 0.4 else [" "]
    t = "".join(r.choice(WORDS) + r.choice(sep) for _ in range(n)).rstrip()
    return (" " * r.choice([0, 0, 1, 2]) + t + " " * r.choice([0, 0, 1, 2, 3])) if r.random() < 0.3 else t


def s33(r):
    ops, opts, helps = [], {}, {}

    def reg():
        n = r.choice(NAMES)
        if r.random() < 0.05:
            n = "--" + "long" * r.choice([4, 16, 25, 40])
        heads = [m for m in opts if m != n and helps[m] not in opts and not any(h == n for h in helps.values())]
        h = r.choice(heads) if heads and r.random() < 0.25 else text(r, r.choice([0, 1, 3, 9, 30]))
        # no option named after a help text, and no help text named after an option it is registered before
        if h == n or n in helps.values() or (h in opts and helps.get(h) in opts):
            h = text(r, 4)
        opts[n] = r.choice(FORMS)
        helps[n] = h
        ops.append(("reg", n, opts[n], r.choice(KINDS), h))
    for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
        reg()
    # the help may refer to names that are registered later only when that stays at one step
    if r.random() < 0.5:
        ops.append(("store",))

    def arg():
        while True:
            a = r.choice([r.choice(VALUES), r.choice(list(opts) or VALUES), r.choice(list(opts) or VALUES) + r.choice(["", "=", "=1", "=no", "=abc", "5", "yes", "=2.75"])])
            n = fits(opts, a)
            # longer than the name of an option that takes several values: left open
            if n is None or opts[n] != "multi" or a == n:
                return a
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.random()
        if k < 0.25:
            ops.append(("unk", r.choice(["ok", "fail", "none"])))
        if r.random() < 0.2:
            reg()
        line = [arg() for _ in range(r.choice([0, 1, 2, 3, 4, 5, 8, 12]))]
        if r.random() < 0.04:
            line = []
            ops.append(("init",))
        else:
            ops.append(("init", r.choice(["prog", "/bin/p q", ""])) + tuple(line))
        if r.random() < 0.2:
            ops.append(("view",))
        for _ in range(r.choice([0, 0, 0, 1, 3])):
            a = arg()
            line.append(a)
            ops.append(("add", a))
        # what is on the line was chosen for these options
        for _ in range(r.choice([1, 1, 1, 2])):
            if all(fits(opts, a) is None or opts[fits(opts, a)] != "multi" or a == fits(opts, a) for a in line):
                ops.append(("parse",))
        if r.random() < 0.3:
            ops.append(("help",))
            ops.append(("width", str(r.choice([0, 8, 9, 10, 12, 17, 20, 30, 60, 79, 81, 200, 1000, 1001]))))
            ops.append(("help",))
            ops.append(("helpof", r.choice(list(opts) + ["-zz"])))
    return ops


def c33(run):
    sc = []
    for st, unk, store in (("a", "none", "TRUE"), ("b", "ok", "FALSE"), ("b", "none", "FALSE"), ("c", "none", "TRUE"), ("c", "fail", "FALSE"), ("d", "none", "TRUE")):
        sc += run.tlc_scripts("MCCmdLine", "MCCmdLine.cfg", consts={"Set": '"%s"' % st, "Unk": '"%s"' % unk, "Store": store, "MaxLen": run.n(4, 6)}, limit=run.n(1200, 20000))
    run.must_fail("MCCmdLine", "MCCmdLine.cfg", {"ValueCounts": "0"})
    exe = harness()
    run.conform(exe, "TraceCmdLine", sc, label="tlc")
    run.conform(exe, "TraceCmdLine", [s33(run.rng) for _ in range(run.n(2500, 40000))], label="rnd")
    run.assumptions += ["arguments that begin with the name of an option that takes several values, but are longer, are not generated",
                        "help texts that name another option do so for one step only; the use of unused arguments is not switched off again"]
