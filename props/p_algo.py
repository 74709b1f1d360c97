"""C18, C19: algorithm registry and nested configuration, against spec/Registry.tla."""
import vlib


def harness():
    return vlib.build("asan", ("vital",), "h_algo", libs=["vital", "vital_config", "vital_logger", "kwiversys"])[0]


IMPL = ["a", "b", "c", "ab", "a_b", "A", "a.b", "a b"]
SLOT = ["in", "out", "n", "in2"]


def register(r, st, t=None, n=None):
    st["id"] += 1
    t = t or r.choice(["t1", "t2"])
    n = n or r.choice(IMPL)
    sl = []
    for x in r.sample(SLOT, r.choice([0, 0, 1, 1, 2])):
        sl += [x, r.choice(["t1", "t2"])]
    st["reg"][t, n] = sl
    return ("register", t, n, str(st["id"]), r.choice(["", "the " + n, "x :: y"]), r.choice(["v", "w", "", "bad"])) + tuple(sl)


def fill(r, st, t, name, depth, c, pre=""):
    """entries for a nested algorithm of type t named name: mostly meaningful, sometimes not"""
    have = [n for (u, n) in st["reg"] if u == t]
    if r.random() < 0.08:
        return
    n = r.choice(have) if have and r.random() < 0.88 else r.choice(["nope", "", "a", "t1", "B", "t2:a"])
    c[pre + name + ":type"] = n
    for m in ([n] if r.random() < 0.7 else [n] + r.sample(IMPL, 2)):
        if not m:
            continue
        q = pre + name + ":" + m + ":"
        if r.random() < 0.6:
            c[q + "p"] = r.choice(["v", "w", "x y", "1", "bad"] if r.random() < 0.6 else ["v", "w"])
        if r.random() < 0.15:
            c[q + r.choice(["q", "p2", "type", "P"])] = "extra"
        sl = st["reg"].get((t, m))
        if sl and depth:
            for i in range(0, len(sl), 2):
                fill(r, st, sl[i + 1], sl[i], depth - 1, c, q)
    if r.random() < 0.15:
        c[pre + r.choice(["p", name + ":p", name + "x:type", name])] = "other"


def conf(r, st, k):
    c = {}
    for n in r.sample(["n", "m", "in"], r.choice([1, 1, 2])):
        fill(r, st, r.choice(["t1", "t2"]), n, r.choice([0, 1, 2, 3]), c)
    if r.random() < 0.3:
        c["p"] = r.choice(["v", "bad"])
    items = list(c.items())
    r.shuffle(items)
    return ("conf", k) + tuple(x for kv in items for x in kv)


def query(r, st):
    k = r.random()
    how = r.choice(["base", "typed"])
    if k < 0.3:
        return ("names", r.choice(["", "t1", "t2", "t", "t3", "t1:"]))
    if k < 0.6:
        return ("has", r.choice(["t1", "t2", "t3", "t"]), r.choice(IMPL + ["", "zz"]))
    if k < 0.7:
        return ("impls", r.choice(["t1", "t2"]))
    return ("create", r.choice("xyzw"), r.choice(["t1", "t2", "t2", "t1", "t9"]), r.choice(IMPL + ["", "zz"]), how)


def known(st, r):
    have = list(st["reg"])
    return r.choice(have) if have else ("t1", "a")


def s18(r):
    st = {"id": 0, "reg": {}}
    ops, live = [], {}
    for _ in range(r.randint(5, 30)):
        k = r.random()
        if k < 0.3:
            ops.append(register(r, st))
        elif k < 0.33:
            ops.append(("nothing", r.choice(["t1", "t2"])))
        elif k < 0.55:
            t, n = known(st, r)
            h = r.choice("xyzw")
            ops.append(("create", h, t, n, r.choice(["base", "typed"])))
            live[h] = (t, n) in st["reg"]
        elif k < 0.75:
            q = query(r, st)
            ops.append(q)
            if q[0] == "create":
                live[q[1]] = (q[2], q[3]) in st["reg"]
        elif any(live.values()):
            g = r.choice([h for h in live if live[h]])
            if k < 0.83:
                h = r.choice([x for x in "xyzw" if x != g])
                ops.append(("clone", h, g, r.choice(["base", "typed"])))
                live[h] = True
            elif k < 0.93:
                ops += [conf(r, st, "c"), ("configure", g, "c")]
            else:
                ops.append(("show", g))
    ops += [("names", t) for t in ("", "t1", "t2")] + [("impls", "t1"), ("impls", "t2")] + [("show", h) for h in sorted(live)]
    return ops


def s19(r):
    st = {"id": 0, "reg": {}}
    ops = [register(r, st) for _ in range(r.randint(1, 7))]
    typ = {}
    for h in "xyz":
        t, n = known(st, r)
        if r.random() < 0.3:
            n = "zz"
        ops.append(("create", h, t, n, r.choice(["base", "typed"])))
        typ[h] = t
    ops.append(("conf", "e"))
    for _ in range(r.randint(2, 9)):
        h = r.choice("xyz")
        t = typ[h]
        how = r.choice(["base", "typed"])
        k = r.random()
        if k < 0.5:
            n = r.choice(["n", "m", "in"])
            ops += [conf(r, st, "c"), ("ncheck", t, n, "c", how), ("nset", h, t, n, "c", how), ("show", h)]
        elif k < 0.75:
            n = r.choice(["n", "m"])
            c = r.choice("ec") if any(o[0] == "conf" and o[1] == "c" for o in ops) else "e"
            ops += [("nget", h, t, n, c, how), ("ncheck", t, n, c, "base"), ("nset", r.choice([x for x in "xyz" if typ[x] == t]), t, n, c, how)]
        elif k < 0.85:
            ops += [("conf", "f"), ("nget", h, t, "n", "f", how), ("create", "v", t, "zz", how), ("nset", "v", t, "n", "f", how), ("show", "v")]
        elif k < 0.95:
            ops.append(register(r, st, *(known(st, r) if r.random() < 0.3 else (None, None))))
        else:
            ops.append(("ncheck", r.choice(["t1", "t2"]), "in", "e", how))
    ops += [("show", h) for h in "xyz"] + [("impls", "t1"), ("impls", "t2")]
    return ops


def c18(run):
    sc = run.tlc_scripts("MCRegistry", "MCRegistry.cfg", consts={"MaxOps": run.n(3, 4)}, limit=run.n(1200, 12000))
    exe = harness()
    run.conform(exe, "TraceRegistry", sc, label="tlc")
    run.conform(exe, "TraceRegistry", [s18(run.rng) for _ in range(run.n(1200, 12000))], label="rnd")


def c19(run):
    sc = run.tlc_scripts("MCRegistry", "MCRegistry_nest.cfg", consts={"MaxOps": run.n(3, 4)}, limit=run.n(1200, 12000))
    exe = harness()
    run.conform(exe, "TraceRegistry", sc, label="tlc")
    run.conform(exe, "TraceRegistry", [s19(run.rng) for _ in range(run.n(1200, 12000))], label="rnd")
