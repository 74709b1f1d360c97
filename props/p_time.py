"""C17: timestamps, against spec/Timestamps.tla."""
import vlib


def harness():
    return vlib.build("asan", ("vital",), "h_time", libs=["vital", "vital_config", "vital_logger", "kwiversys"])[0]


def val(r):
    k = r.random()
    if k < 0.6:
        return str(r.choice([0, 1, 2, 5, -1, 7, 8, 15000000, 15000001]))
    if k < 0.8:
        return str(r.choice([2**31 - 1, 2**31, 2**32, -2**31 - 1, 2**53 + 1, 2**53, 2**62, 2**63 - 1, -2**63, 10**12, 2**32 + 5, 5 + 2**40]))
    return str(r.randint(-10**r.randint(1, 15), 10**r.randint(1, 15)))


def s17(r):
    hs = "abcd"
    ops = [("new", h) if r.random() < 0.5 else ("both", h, val(r), val(r)) for h in hs]
    near = [val(r) for _ in range(3)]
    v = lambda: r.choice(near) if r.random() < 0.6 else val(r)
    for _ in range(r.randint(3, 25)):
        h = r.choice(hs)
        k = r.random()
        if k < 0.2:
            ops.append(("time", h, v()))
        elif k < 0.4:
            ops.append(("frame", h, v()))
        elif k < 0.45:
            ops.append(("seconds", h, str(r.choice([0, 1, 64, 96, -1, -64, r.randint(0, 10**11)]))))
        elif k < 0.52:
            ops.append(("invalid", h))
        elif k < 0.58:
            ops.append(("domain", h, str(r.choice([0, 0, 1, 2, -1]))))
        elif k < 0.62:
            ops.append(("copy", h, r.choice(hs)))
        elif k < 0.66:
            ops.append(("both", h, v(), v()))
        elif k < 0.68:
            ops.append(("new", h))
        elif k < 0.95:
            ops.append(("cmp", h, r.choice(hs)))
        else:
            ops.append(("print", h))
    ops += [("cmp", g, h) for g in hs for h in hs] + [("q", h) for h in hs]
    return ops


def c17(run):
    sc = run.tlc_scripts("MCTimestamps", "MCTimestamps.cfg", consts={"MaxOps": run.n(3, 4)}, limit=run.n(2200, 20000))
    exe = harness()
    run.conform(exe, "TraceTimestamps", sc, label="tlc")
    run.conform(exe, "TraceTimestamps", [s17(run.rng) for _ in range(run.n(1500, 20000))], label="rnd")
