"""C11, C12: tracks and track sets, against spec/Tracks.tla."""
import vlib
H = "abcdefgh"


def harness():
    return vlib.build("asan", ("vital",), "h_track", libs=["vital", "vital_config", "vital_logger", "kwiversys"])[0]


def build(r, n, lo, hi, tok):
    """Operations building some tracks."""
    ops, have = [], []
    for _ in range(n):
        k = r.random()
        if not have or k < 0.15:
            h = r.choice(H)
            if h not in have:
                have.append(h)
            if r.random() < 0.6:
                ops.append(("tnew", h))
            else:
                tok[0] += 1
                ops.append(("tstate", h, str(r.randint(lo, hi)), str(tok[0]), str(r.choice([0, tok[0] + 500]))))
        elif k < 0.7:
            tok[0] += 1
            ops.append(("append", r.choice(have), str(r.randint(lo, hi)), str(r.choice([tok[0], tok[0], 0])), str(r.choice([tok[0] + 500, 0]))))
        elif k < 0.85:
            ops.append(("appendt", r.choice(have), r.choice(have)))
        elif k < 0.9:
            h, g = r.choice(H), r.choice(have)
            if h != g:
                ops.append(("tcopy", h, g))
                if h not in have:
                    have.append(h)
        else:
            ops.append(("setid", r.choice(have), str(r.choice([0, 1, 2, 3, -4, 100000]))))
    return ops, have


def run_up(r, h, n, tok):
    """A long track with gaps."""
    ops, f = [("tnew", h)], r.randint(0, 5)
    for _ in range(n):
        tok[0] += 1
        ops.append(("append", h, str(f), str(tok[0]), str(tok[0] + 500)))
        f += r.choice([1, 1, 1, 2, 5, 0] if n > 20 or r.random() < 0.9 else [1, 300, 2000])
    return ops


def s11(r):
    tok = [0]
    big = r.random() < 0.3
    lo, hi = r.choice([(0, 4), (0, 30), (-10, 10), (1, 3)])
    if big:
        lo, hi = (1, 40)
    ops = [("base", str(r.choice([1 << 40, 3000000000, (1 << 62), 4294967296, -(1 << 40)])))] if big else []
    o, have = build(r, r.randint(3, 40), lo, hi, tok)
    for op in o:
        ops.append(op)
        if r.random() < 0.3 and op[1] in have:
            ops.append(("q", op[1]))
    if r.random() < 0.3:
        ops += run_up(r, "h", r.randint(2, 60), tok)
        have = have + ["h"]
    for h in set(have):
        ops += [("q", h), ("find", h) + tuple(str(x) for x in range(lo - 2, hi + 3))]
    return ops


def s12(r):
    tok = [0]
    big = r.random() < 0.15
    hi = r.choice([3, 8, 20])
    lo = 0 if not big else 1
    ops = [("base", str(r.choice([1 << 40, 3000000000, 4294967296])))] if big else []
    o, have = build(r, r.randint(5, 50), lo, hi, tok)
    ops += o
    if r.random() < 0.3:
        ops += run_up(r, "h", r.randint(2, 25), tok)
        have = list(dict.fromkeys(have + ["h"]))
    if big:  # a set of tracks none of which has a state has no frame to count from
        ops[1:1] = [("tnew", "z"), ("append", "z", "1", "900", "901")]
    for _ in range(r.randint(1, 3)):
        m = [h for h in have if r.random() < 0.8]
        if big:
            m.append("z")
        r.shuffle(m)
        ops += [("set", r.choice("sb")) + tuple(m), ("sq",)]
        for f in r.sample(range(-hi - 4, hi + 6), min(12, 2 * hi)) + [-1, 0]:
            ops.append(("on", str(f)) + (("d",) if f == -1 and r.random() < 0.5 else ()))
        ops += [("lastf",), ("pct", "-2", "-1", "d")]
        for _ in range(4):
            ops.append(("pct", str(r.randint(-hi - 3, hi + 2)), str(r.randint(-hi - 3, hi + 2))))
        ops += [("byid", str(i)) for i in (0, 1, 2, 3, -4, 100000, 55)]
        ops += [("q", h) for h in have] + [("sq",)]
        if r.random() < 0.5 and not big:
            tok[0] += 1
            ops += [("append", r.choice(have), str(r.randint(0, hi + 3)), str(tok[0]), "0"), ("sq",), ("on", "-1"), ("lastf",)]
    return ops


def c11(run):
    run.model_check("MCTracks", "MCTracks_c11.cfg", consts={"MaxOps": run.n(3, 4)})
    sc = run.tlc_scripts("MCTracks", "MCTracks_gen.cfg", consts={"MaxOps": run.n(4, 5)}, limit=run.n(2500, 20000))
    exe = harness()
    run.conform(exe, "TraceTracks", sc, label="tlc")
    run.conform(exe, "TraceTracks", [s11(run.rng) for _ in range(run.n(2000, 20000))], label="rnd")


def c12(run):
    run.model_check("MCTracks", "MCTracks_c12.cfg", consts={"MaxOps": run.n(3, 4)})
    sc = run.tlc_scripts("MCTracks", "MCTracks_gen.cfg", consts={"MaxOps": run.n(4, 4), "MaxFrame": run.n(2, 3)}, limit=run.n(1500, 20000))
    exe = harness()
    run.conform(exe, "TraceTracks", sc, label="tlc")
    run.conform(exe, "TraceTracks", [s12(run.rng) for _ in range(run.n(1000, 12000))], label="rnd")
