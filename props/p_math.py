"""C26, C27, C36, C38: homographies between frames, sparse matrices, covariances and value types."""
import vlib


def harness():
    return vlib.build("asan", ("vital",), "h_math", libs=["vital", "vital_config", "vital_logger", "kwiversys"])[0]


# ---- homographies
def det(m):
    return (m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]))


def pow2(n):
    n = abs(n)
    return n > 0 and n & (n - 1) == 0


def canon(m, e):
    while any(m) and all(x % 2 == 0 for x in m):
        m, e = [x // 2 for x in m], e + 1
    return (m, e) if any(m) else (m, 0)


def mul(a, b):
    (m, e), (n, f) = a, b
    return canon([sum(m[3 * i + k] * n[3 * k + j] for k in range(3)) for i in range(3) for j in range(3)], e + f)


def inv(a):
    m, e = a
    d = det(m)
    c = lambda i, j: m[3 * ((i + 1) % 3) + (j + 1) % 3] * m[3 * ((i + 2) % 3) + (j + 2) % 3] - m[3 * ((i + 1) % 3) + (j + 2) % 3] * m[3 * ((i + 2) % 3) + (j + 1) % 3]
    s = 1 if d > 0 else -1
    return canon([s * c(j, i) for i in range(3) for j in range(3)], -e - (abs(d).bit_length() - 1))


def matrix(r, size=3):
    """nine integers: invertible with a power of two as determinant, or singular, or any"""
    while True:
        k = r.random()
        if k < 0.5:  # product of elementary matrices
            m = [1, 0, 0, 0, 1, 0, 0, 0, 1]
            for _ in range(r.randint(1, 3)):
                e = [1, 0, 0, 0, 1, 0, 0, 0, 1]
                i = r.randrange(9)
                e[i] = r.choice([-1, 1, 2, 4, -2]) if i % 4 == 0 else r.randint(-size, size)
                m = mul((m, 0), (e, 0))[0]
        elif k < 0.6:
            m = [r.randint(-size, size) for _ in range(6)]
            m += [m[i] + m[3 + i] for i in range(3)]  # singular
        else:
            m = [r.randint(-size, size) for _ in range(9)]
        if any(m) and max(map(abs, m)) < 50:
            return m


FRAMES = ["0", "1", "2", "-1", "4294967297", "9007199254740993"]


def s26(r):
    ops, os, n = [], {}, 0  # handle -> [kind, type, (m, e), from, to]
    frames = r.sample(FRAMES, 3)

    def big(a):
        return max(map(abs, a[0])) > 30000 or abs(a[1]) > 60

    def new():
        return r.choice("abcdefgh")
    for _ in range(r.randint(4, 25)):
        k = r.randrange(15)
        h = new()
        t = r.choice("ddf")
        ms = [x for x in os if os[x][0] == "m"]
        fs = [x for x in os if os[x][0] == "f"]
        if k < 3 or not os:
            m, e = matrix(r), r.choice([0, 0, 0, 1, -1, 3, -4])
            x = canon(m, e)
            p, q = r.choice(frames), r.choice(frames)
            if r.random() < 0.7:
                ops.append(("f2f", h, t, r.choice("ds"), p, q, str(e)) + tuple(map(str, m)))
                os[h] = ["f", t, x, p, q]
            else:
                ops.append(("mat", h, t, str(e)) + tuple(map(str, m)))
                os[h] = ["m", t, x, "", ""]
        elif k == 3:
            f = r.choice(frames)
            j = r.choice(["ident", "fident", "wident"])
            ops.append((j, h, t if j == "ident" else f))
            os[h] = ["m" if j == "ident" else "f" if j == "fident" else "w", t if j == "ident" else "d", ([1, 0, 0, 0, 1, 0, 0, 0, 1], 0), f, f]
        elif k == 4 and ms:
            g, p, q = r.choice(ms), r.choice(frames), r.choice(frames)
            if r.random() < 0.6:
                ops.append(("f2fof", h, g, p, q))
                os[h] = ["f", os[g][1], os[g][2], p, q]
            else:
                ops.append(("f2wof", h, g, p))
                os[h] = ["w", os[g][1], os[g][2], p, ""]
        elif k == 5:
            g = r.choice(list(os))
            ops.append(("copy", h, g))
            os[h] = list(os[g])
        elif k == 6:
            g = r.choice(list(os))
            c = [x for x in os if os[x][0] == os[g][0] and (os[g][0] != "m" or os[x][1] == os[g][1])]
            h = r.choice(c)
            ops.append(("assign", h, g))
            os[h] = list(os[g])
        elif k == 7 and ms:
            g = r.choice(ms)
            if r.random() < 0.5:
                ops.append(("clone", h, g))
                os[h] = list(os[g])
            else:
                if max(map(abs, os[g][2][0])) > 10**6:
                    continue
                ops.append(("conv", h, g, r.choice(["base", "typed"])))
                os[h] = list(os[g])
                os[h][1] = "f" if os[g][1] == "d" else "d"
        elif k in (8, 9, 10):
            kind = "f" if fs and r.random() < 0.8 else "m"
            c = fs if kind == "f" else ms
            if not c:
                continue
            a = r.choice(c)
            d = [x for x in c if kind == "m" and os[x][1] == os[a][1] or kind == "f" and (os[x][4] == os[a][3] or r.random() < 0.15)]
            if not d:
                continue
            b = r.choice(d)
            x = mul(os[a][2], os[b][2])
            lim = 4000 if "f" in (os[a][1], os[b][1]) else 30000
            if max(map(abs, x[0])) > lim or abs(x[1]) > 60 or big(os[a][2]) or big(os[b][2]):
                continue
            ops.append(("mul", h, a, b))
            if kind == "m":
                os[h] = ["m", os[a][1], x, "", ""]
            elif os[a][3] == os[b][4]:
                os[h] = ["f", "d", x, os[b][3], os[a][4]]
        elif k in (11, 12):
            g = r.choice(list(os))
            if os[g][0] == "w":
                continue
            m, e = os[g][2]
            d = det(m)
            if max(map(abs, m)) > 600 or d != 0 and not pow2(d) or os[g][1] == "f" and max(map(abs, m)) > 15 or abs(e) > 3 and d == 0:
                continue
            # a determinant near to zero may be taken for zero
            if d != 0 and (e * 3 + abs(d).bit_length() < -12 or e < -6):
                continue
            ops.append(("inv", h, g))
            if d:
                x = os[g]
                os[h] = [x[0], x[1], inv(x[2]), x[4], x[3]]
        elif k == 13:
            g = r.choice(list(os))
            if r.random() < 0.3:
                w = os[g][2][0][8]
                if (w == 0 or pow2(w)) and os[g][2][1] > -6:
                    ops.append(("norm", h, g))
                    m, e = os[g][2]
                    os[h] = ["m", os[g][1], (m, e) if w == 0 else canon([x * (1 if w > 0 else -1) for x in m], -(abs(w).bit_length() - 1)), "", ""]
            else:
                for _ in range(6):
                    x, y = r.randint(-4, 4), r.randint(-4, 4)
                    m, e = os[g][2]
                    w = m[6] * x + m[7] * y + m[8]
                    if (w == 0 or pow2(w)) and e > -6 and max(map(abs, m)) < 4000:
                        ops.append(("map", g, str(x), str(y), r.choice(["point", "map"])))
                        break
        else:
            g = r.choice(list(os))
            m, e = os[g][2]
            if max(map(abs, m)) < 1000 and abs(e) < 8:
                i, v = r.randint(1, 9), r.randint(-5, 5)
                ops.append(("set", g, str(i), str(v)))
                low = min(e, 0)
                os[g][2] = canon([v * 2 ** -low if j + 1 == i else x * 2 ** (e - low) for j, x in enumerate(m)], low)
                ops += [("show", x) for x in os]
    return ops + [("show", x) for x in os]


def c26(run):
    sc = run.tlc_scripts("MCHoms", "MCHoms.cfg", consts={"MaxOps": run.n(2, 3)}, limit=run.n(1200, 15000))
    exe = harness()
    run.conform(exe, "TraceHoms", sc, label="tlc", args=["hom"])
    run.conform(exe, "TraceHoms", [s26(run.rng) for _ in range(run.n(2500, 30000))], label="rnd", args=["hom"])
    run.assumptions.append("matrices are dyadic, determinants to be inverted and divisors are powers of two, so that all results are exact")


# ---- sparse matrices
def s27(r):
    ops, hs = [], []
    for h in "ab"[:r.randint(1, 2)]:
        byrow, ix = r.choice("01"), r.choice("il")
        R, C = r.choice([0, 1, 1, 2, 3, 5, 8]), r.choice([0, 1, 1, 2, 3, 5, 8])
        cells = [(i, j) for i in range(R) for j in range(C)]
        r.shuffle(cells)
        cells = cells[:r.choice([0, 1, 2, len(cells) // 4, len(cells) // 2, len(cells)])]
        if r.random() < 0.3:
            cells = [c for c in cells if c[0] % 3 == 1]
        hs.append((h, R, C, byrow + ix))
        ops.append(("mat", h, byrow, ix, r.choice("01"), str(R), str(C)) + tuple(str(x) for c in cells for x in (c[0], c[1], r.randint(-3, 9))))
        ops.append(("enum", h))
    for _ in range(r.randint(0, 6)):
        h, R, C, k = r.choice(hs)
        x = r.randrange(4)
        if x == 0 and R and C:
            ops.append(("put", h, str(r.randrange(R)), str(r.randrange(C)), str(r.randint(-3, 9))))
            ops.append(("enum", h))
        elif x == 1:
            ops.append(("compress", h))
            ops.append(("enum", h))
        else:
            g = r.choice([q for q in hs if q[3] == k])
            if R * C < 30 and g[1] * g[2] < 30:
                ops.append(("cmp", h, g[0]))
    return ops


def c27(run):
    sc = []
    for o, i in ((3, 3), (2, 4), (4, 2), (1, 3)) + (() if run.quick else ((4, 3), (6, 2), (2, 5))):
        sc += run.tlc_scripts("MCSparse", "MCSparse.cfg", consts={"Outer": o, "Inner": i})
    run.must_fail("MCSparse", "MCSparse.cfg", {"SkipEmpty": "FALSE"})
    exe = harness()
    run.notes["sparsity_patterns_enumerated"] = len(sc)
    run.conform(exe, "TraceSparse", sc, label="tlc", args=["sparse"])
    run.conform(exe, "TraceSparse", [s27(run.rng) for _ in range(run.n(1500, 20000))], label="rnd", args=["sparse"])


# ---- covariances
def s36(r):
    n = r.choice([1, 2, 2, 3, 3, 4, 6])
    ops, ty = [], {}
    v = lambda: str(2 * r.randint(-50, 50))
    for _ in range(r.randint(2, 20)):
        h = r.choice("abcd")
        k = r.randrange(9)
        if k < 2 or not ty:
            t = r.choice("df")
            if r.random() < 0.3:
                ops.append(("scalar", h, str(n), t, v()))
            else:
                ops.append(("mat", h, str(n), t) + tuple(v() for _ in range(n * n)))
            ty[h] = t
        elif k == 2:
            g = r.choice(list(ty))
            ops.append(("copy", h, g))
            ty[h] = ty[g]
        elif k == 3:
            g = r.choice(list(ty))
            h = r.choice([x for x in ty if ty[x] == ty[g]])
            ops.append(("assign", h, g))
        elif k in (4, 5):
            g = r.choice(list(ty))
            ops.append(("conv", h, g, "x"))
            ty[h] = "f" if ty[g] == "d" else "d"
        elif k == 6:
            g = r.choice(list(ty))
            ops.append(("rebuild", h, g))
            ty[h] = ty[g]
        else:
            g = r.choice(list(ty))
            ops.append(("set", g, str(r.randint(1, n)), str(r.randint(1, n)), str(r.randint(-99, 99))))
            ops += [("show", x) for x in ty]
    return ops + [("show", x) for x in ty]


def c36(run):
    sc = []
    for n in (2, 3) if run.quick else (2, 3, 4):
        sc += run.tlc_scripts("MCCovs", "MCCovs.cfg", consts={"MaxOps": run.n(2, 3), "N": n}, limit=run.n(1000, 10000))
    exe = harness()
    run.conform(exe, "TraceCovs", sc, label="tlc", args=["cov"])
    run.conform(exe, "TraceCovs", [s36(run.rng) for _ in range(run.n(2000, 30000))], label="rnd", args=["cov"])


# ---- value types
SIZE = {"feat": {"loc": 2, "mag": 1, "scale": 1, "angle": 1, "color": 3}, "lm": {"loc": 3, "scale": 1, "normal": 3, "color": 3, "obs": 1},
        "color": {"r": 1, "g": 1, "b": 1}, "geo": {"lat": 1, "lon": 1}}


def num(r):
    return str(r.choice([0, 1, -1, 2, 4, -6, r.randint(-9999, 9999), r.randint(-60, 60)]))


def val(r, at):
    return str(r.choice([0, 1, 127, 128, 254, 255, r.randint(0, 255)])) if at in ("r", "g", "b", "color") else str(r.choice([0, 1, 7, 65536, 2**31 - 1])) if at == "obs" \
        else str(r.choice([0, 360, 361, -360, -361, 720, -720, -721, 1440, 1441, 1776, r.randint(-1500, 1500)])) if at in ("lat", "lon") else num(r)


def s38(r):
    ops, hs = [], {}
    if r.random() < 0.12:
        for _ in range(r.randint(1, 8)):
            i = lambda: str(r.choice([0, 1, -1, 12, 10**12, 2**63 - 1, -2**63, r.randint(-10**6, 10**6)]))
            k = r.choice("pq")
            if r.random() < 0.4:
                ops.append(("tsset", k, i(), i()))
            else:
                s = r.choice(["%s %s", " %s   %s ", "%s\t%s", "%s", "%s ", "%s x%s", "x%s %s", "%s-%s", "+%s %s", "%s %s 7", "%s %sx", "9%s0 %s", "%s 123456789%s0"])
                ops.append(("cfgset", k, (s % tuple(i() for _ in range(s.count("%s")))) if r.random() < 0.9 else r.choice(["", " ", "-", "1 -", "abc", "1.5 2", "1 2.5"])))
            ops += [("tsget", k), ("tsgetd", k, i(), i())]
        return ops
    kind = r.choice(["feat", "feat", "lm", "lm", "color", "geo", "desc"])
    if kind == "desc":
        t, fx, n = r.choice("bsifd"), r.choice("01"), r.choice([0, 1, 3, 8, 8])
        if fx == "1" and n == 0:
            n = 1
        v = lambda: str(r.randint(0, 255) if t == "b" else r.choice([0, 1, -1, 255, 256, -32768, 32767, r.randint(-30000, 30000)]))
        ops.append(("desc", "a", t, fx) + tuple(v() for _ in range(n)))
        hs = {"a": (t, n)}
        for _ in range(r.randint(2, 10)):
            h = r.choice("abcd")
            g = r.choice(list(hs))
            k = r.randrange(4)
            if k == 0:
                ops.append(("copy", h, g))
                hs[h] = hs[g]
            elif k == 1:
                ops.append(("assign", r.choice(list(hs)), g))
            elif n:
                ops.append(("set", g, str(r.randint(1, n)), v()))
            ops += [("show", x) for x in hs]
        return ops
    for _ in range(r.randint(3, 20)):
        h, k = r.choice("abcd"), r.randrange(12)
        t = r.choice("df") if kind in ("feat", "lm") else ""
        if k == 0 or not hs:
            ops.append(("new", h, kind, t))
            hs[h] = t
        elif k == 1:
            if kind == "feat":
                n = r.choice([2, 3, 4, 5, 8])
                a = [num(r) for _ in range(min(n, 5))] + [val(r, "color") for _ in range(n - 5)]
            elif kind == "lm":
                a = [num(r) for _ in range(r.choice([3, 4]))]
            elif kind == "color":
                a = [val(r, "r") for _ in range(3)]
            else:
                a = [val(r, "lat"), val(r, "lon")]
            ops.append(("make", h, kind, t) + tuple(a))
            hs[h] = t
        elif k in (2, 3, 4):
            g = r.choice(list(hs))
            at = r.choice(list(SIZE[kind]))
            ops.append(("set", g, at) + tuple(val(r, at) for _ in range(SIZE[kind][at])))
        elif k == 5:
            g = r.choice(list(hs))
            if kind in ("feat", "lm"):
                n = 2 if kind == "feat" else 3
                m = [[0] * n for _ in range(n)]
                for i in range(n):
                    for j in range(i + 1):
                        m[i][j] = m[j][i] = r.randint(-20, 20)
                ops.append(("covar", g) + tuple(str(m[i][j]) for i in range(n) for j in range(n)))
        elif k == 6:
            g = r.choice(list(hs))
            ops.append((r.choice(["copy", "clone"]) if kind == "lm" else "copy", h, g))
            hs[h] = hs[g]
        elif k == 7:
            g = r.choice(list(hs))
            ops.append(("assign", r.choice([x for x in hs if hs[x] == hs[g]]), g))
        elif k == 8 and kind in ("feat", "lm"):
            g = r.choice(list(hs))
            ops.append(("conv", h, g, t))
            hs[h] = t
        elif k in (9, 10):
            g, x = r.choice(list(hs)), r.choice(list(hs))
            if kind == "geo":
                ops += [("eq", g, x), ("geotext", g)]
            else:
                ops.append(("text", g, x, r.choice(["own", "base"])))
                if kind == "color":
                    ops.append(("eq", g, x))
                    c = lambda: str(r.choice([0, 1, 255, 255, 17, r.choice([256, -1, 100000])]))
                    ops.append(("ctext", g, c(), c(), c()))
        ops += [("show", x) for x in hs]
    return ops


def c38(run):
    sc = []
    for cfg in ("MCValues.cfg", "MCValues_lm.cfg"):
        sc += run.tlc_scripts("MCValues", cfg, consts={"MaxOps": run.n(3, 4)}, limit=run.n(800, 10000))
    exe = harness()
    run.conform(exe, "TraceValues", sc, label="tlc", args=["val"])
    run.conform(exe, "TraceValues", [s38(run.rng) for _ in range(run.n(2000, 30000))], label="rnd", args=["val"])
