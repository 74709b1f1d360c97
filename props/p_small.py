"""C28, C29, C40: tokenizing, timers and base64."""
import vlib


def harness():
    return vlib.build("asan", ("kwiversys",), "h_small", libs=["kwiversys"])[0]


def s28(r):
    ops = []
    kind = {h: r.choice(["vector", "list", "deque"]) for h in "ab"}
    for _ in range(r.randint(1, 8)):
        h = r.choice("ab")
        d = r.choice(["", " ", ",", ", ;", " \t\n", "::", "ab", "\x01\x7f", "\xe9,", "\x00", "\x00,", ";\x00 "])
        al = "".join(r.choice(["x", "yz", " ", d or "q", "\n", "\xe9", "\x00"]) for _ in range(r.choice([0, 1, 3, 10, 60])))
        s = al if r.random() < 0.8 else "".join(r.choice(d or " ") for _ in range(r.randint(0, 9)))
        if r.random() < 0.1:
            ops.append(("clear", h))
            kind[h] = r.choice(["vector", "list", "deque"])
        o = ("tok", h, kind[h], s, d, r.choice("01"))
        ops.append(o + ("-",) if r.random() < 0.1 else o)
    return ops


def c28(run):
    sc = run.tlc_scripts("MCTokens", "MCTokens.cfg", consts={"MaxLen": run.n(5, 6)})
    exe = harness()
    run.conform(exe, "TraceTokens", sc, label="tlc", args=["tok"])
    run.conform(exe, "TraceTokens", [s28(run.rng) for _ in range(run.n(1500, 20000))], label="rnd", args=["tok"])


def s29(r):
    ops, kind = [], {}
    for h in "ab":
        kind[h] = r.choice(["wall", "cpu"])
        ops.append(("new", h, kind[h]))
    for _ in range(r.randint(5, 22)):
        h = r.choice("ab")
        k = r.randrange(10)
        if k < 2:
            ops.append(("start", h))
        elif k < 4:
            ops.append(("stop", h))
        elif k < 7:
            ops.append(("elapsed", h))
        elif k < 9:
            ops.append(("pass", r.choice(["sleep", "burn"]), str(r.choice([0, 2, 4, 8]))))
        elif r.random() < 0.5:
            ops.append(("scoped", r.choice(["wall", "cpu"]), r.choice(["-", "", "a title", "100%s {} - x"]), r.choice(["sleep", "burn"]), str(r.choice([0, 3, 7]))))
    return ops + [("elapsed", h) for h in "abab"]


def c29(run):
    sc = run.tlc_scripts("MCTimers", "MCTimers.cfg", consts={"MaxOps": run.n(6, 8)}, limit=run.n(250, 2500))
    exe = harness()
    cpu = [[tuple("cpu" if x == "wall" else "burn" if o[0] == "pass" and x == "t" else x for x in o) for o in s] for s in sc]
    run.conform(exe, "TraceTimers", sc + cpu, label="tlc", args=["time"])
    run.conform(exe, "TraceTimers", [s29(run.rng) for _ in range(run.n(250, 3000))], label="rnd", args=["time"])
    run.assumptions.append("elapsed times are compared with the same clock read before and after each call, to half a millisecond and one percent")


B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def s40(r):
    ops = []
    for _ in range(r.randint(2, 8)):
        k = r.random()
        if k < 0.5:
            n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 30, 31, 32])
            b = [str(r.choice([0, 255, 1, 128, r.randint(0, 255), r.randint(0, 255)])) for _ in range(n)]
            ops += [("enc", r.choice("01")) + tuple(b), ("round", r.choice("01")) + tuple(b)]
        else:
            n = r.choice([1, 1, 2, 3])
            c = B64 if r.random() < 0.4 else B64 + "===" * 4 + "-_ \n*\x80\xff.,"
            t = "".join(r.choice(c) for _ in range(4 * n))
            if r.random() < 0.4:
                t = t[:-r.randint(1, 2)]
                t += "=" * (-len(t) % 4)
            if r.random() < 0.2:
                ops.append(("dec3", t[:4]))
            elif r.random() < 0.5:
                ops.append(("dec", str(r.randint(0, 3 * n)), t))
            else:
                ops.append(("dec", "-1", t + "".join(r.choice(c) for _ in range(r.choice([0, 0, 1, 2, 3])))))
    return ops


def c40(run):
    sc = run.tlc_scripts("MCBase64", "MCBase64.cfg", consts=None if run.quick else {"MaxLen": 5})
    exe = vlib.build_kw("h_kw")
    run.conform(exe, "TraceBase64", sc + [[("enc", "0", str(b)), ("round", "0", str(b)), ("round", "1", str(b), str(255 - b)), ("round", "1", "7", "77", str(b))] for b in range(256)],
                label="tlc", args=["b64"])
    run.conform(exe, "TraceBase64", [s40(run.rng) for _ in range(run.n(2000, 30000))], label="rnd", args=["b64"])
