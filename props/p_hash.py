"""C34: hash containers."""
import vlib


def harness():
    return vlib.build_kw("h_hash")


KINDS = ["set", "mset", "map", "mmap"]
MODES = ["id", "one", "mod3", "str", "eq4"]


def s34(r):
    ops, hs, fresh = [], {}, [0]
    kmax = r.choice([3, 6, 15, 40])
    big = r.random() < 0.1

    def val(kind):
        if kind in ("set", "mset"):
            return 0
        fresh[0] += 1
        return fresh[0]

    def elems(kind, n):
        o = []
        for _ in range(n):
            o += [r.randrange(kmax), val(kind)]
        return o

    def new(h):
        kind, mode = r.choice(KINDS), r.choice(MODES)
        if hs and r.random() < 0.6:
            kind = r.choice(list(hs.values()))[0]
        how, cat, n = r.choice(["empty", "range"]), r.choice(["in", "ra"]), r.choice([-1, 0, 1, 5, 11, 12])
        if n < 0:
            mode = "id"
        ops.append(("new", h, kind, mode, how, cat, n) + tuple(elems(kind, r.choice([0, 1, 3, 6, 8]))))
        hs[h] = (kind, mode)

    held, faulty = {}, False
    for _ in range(r.choice([6, 12, 25, 40])):
        h = r.choice("xyz") if len(hs) > 1 or r.random() < 0.4 else "x"
        if faulty:
            # the next operation is one that copies
            faulty = False
            g = r.choice(list(hs))
            kind, mode = hs[g]
            k = r.randrange(6)
            if k == 0:
                h = r.choice("xyz")
                ops.append(("copy", h, g))
                ops.append(("drop", h))
                hs.pop(h, None)
                # whether h exists is known to the specification only; make it anew
                new(h)
            elif k == 1:
                f = [x for x in hs if hs[x] == hs[g]]
                ops.append(("asg", g, r.choice(f)))
            elif k == 2 and kind in ("map",):
                ops.append(("idx", g, r.randrange(kmax)))
            elif k == 3:
                ops.append(("insr", g, r.choice(["in", "ra", "fwd", "ptr"])) + tuple(elems(kind, r.choice([1, 3, 6]))))
            else:
                ops.append(("ins", g, r.randrange(kmax), val(kind), r.choice(["", "nr"])))
            continue
        if h not in hs or r.random() < 0.03:
            new(h)
            continue
        kind, mode = hs[h]
        c = r.randrange(30)
        if c < 8:
            ops.append(("ins", h, r.randrange(kmax), val(kind), r.choice(["", "", "nr"])))
        elif c < 10:
            ops.append(("insr", h, r.choice(["in", "ra", "fwd", "ptr"])) + tuple(elems(kind, r.choice([0, 1, 3, 6, 14] + ([60] if big else [])))))
        elif c < 12:
            ops.append((r.choice(["find", "count", "eqr", "eqr"]), h, r.randrange(kmax)))
        elif c == 12:
            ops.append(("erk", h, r.randrange(kmax)))
        elif c == 13:
            ops.append(("erkof", h, r.randrange(60)))
        elif c < 16:
            ops.append(("eri", h, r.randrange(60)))
        elif c < 18:
            ops.append(("err", h, r.randrange(60), r.choice([0, 1, 2, 3, 5, 9]), r.choice(["", "", "end"])))
        elif c == 18:
            g = r.choice("xyz")
            if g != h:
                ops.append(("copy", g, h))
                hs[g] = hs[h]
        elif c == 19:
            g = r.choice([g for g in hs if hs[g][0] == kind])
            ops.append(("asg", h, g))
            hs[h] = hs[g]
        elif c == 20:
            g = [g for g in hs if hs[g][0] == kind and g != h]
            if g:
                ops.append(("swap", h, g[0], r.choice(["free", "member"])))
                hs[h], hs[g[0]] = hs[g[0]], hs[h]
        elif c == 21:
            ops.append(("resize", h, r.choice([0, 3, 6, 12, 24, 60])))
        elif c == 22:
            ops.append(("clear", h) if r.random() < 0.5 else ("drop", h))
            if ops[-1][0] == "drop":
                del hs[h]
        elif c == 23:
            g = r.choice([g for g in hs if hs[g] == hs[h]])
            ops.append(("eqv", h, g))
        elif c < 26:
            if kind != "mset":
                x = r.choice("pqr")
                ops.append(("hold", h, r.randrange(60), x))
                held[x] = 1
        elif c < 28:
            if held:
                ops.append(("held", r.choice(list(held))))
        elif c == 28 and kind == "map":
            ops.append(r.choice([("idx", h, r.randrange(kmax)), ("set", h, r.randrange(kmax), val(kind), r.choice(["", "find"]))]))
        elif c == 29:
            ops.append(("fault", r.randrange(8)))
            faulty = True
    while ops and ops[-1][0] == "fault":
        ops.pop()
    for x in held:
        ops.append(("held", x))
    return ops


def c34(run):
    sc = []
    grid = [("set", "mod3"), ("mset", "mod3"), ("map", "id"), ("mmap", "mod3"), ("mmap", "one"), ("mset", "eq4"), ("set", "one"), ("map", "eq4")]
    for kind, mode in grid:
        sc += run.tlc_scripts("MCHash", "MCHash.cfg", consts={"Kind": '"%s"' % kind, "Mode": '"%s"' % mode, "MaxOps": run.n(4, 5)}, limit=run.n(400, 4000))
    run.must_fail("MCHash", "MCHash.cfg", {"AfterEqual": "FALSE", "MaxOps": 4})
    if not run.quick:
        run.model_check("MCHash", "MCHash.cfg", consts={"Kind": '"mmap"', "Mode": '"mod3"', "MaxOps": 6, "Keys": "{0, 1, 3, 5}"})
    exe = harness()
    run.conform(exe, "TraceHash", sc, label="tlc")
    run.conform(exe, "TraceHash", [s34(run.rng) for _ in range(run.n(1500, 30000))], label="rnd")
    run.assumptions += ["hash and comparison functions do not throw; copies of elements may",
                        "whether containers with equal elements in a different order compare equal is left open"]
